//! Symbolic context handed to the cases: variables, claims, and the engine that decides them.
use crate::solver::{Ans, Solver};
use blstrs::{G1Projective, G2Projective, Scalar};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;
use std::time::Instant;
use symcore::analysis::{affine_columns, MonoId, Norm, Poly, Rref, MONO_ONE};
use symcore::fr::{Fr, MODULUS};
use symcore::{Arena, Kind, Op, CBIT, V};

/// column j of the wanted linear map: coefficient of variable `names[j]` in every output
pub type LinFn = Box<dyn Fn(usize) -> Vec<Fr> + Send + Sync>;

pub enum What {
    /// value must be zero
    Zero(V),
    /// concrete truth on this path
    Bool(bool, String),
    /// accepted iff all residuals are zero
    Iff { accepted: bool, spec: Vec<V> },
    /// the path so far carries no condition on the inputs (first path only)
    Unconditional,
    /// outputs must be the given linear forms of the named variables
    Lin { outs: Vec<V>, names: Vec<String>, want: LinFn },
}
pub struct Claim {
    pub label: String,
    pub what: What,
}

pub struct Cx {
    pub claims: Vec<Claim>,
    pub seed: u64,
}

thread_local! { static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        LAST_PANIC.with(|p| *p.borrow_mut() = i.to_string());
    }));
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

impl Cx {
    pub const SYMBOLIC: bool = true;
    pub fn s(&mut self, name: &str) -> Scalar {
        Scalar::mk(symcore::var(name))
    }
    pub fn g1(&mut self, name: &str) -> G1Projective {
        G1Projective::mk(symcore::var(name))
    }
    /// symbolic value whose starting assignment is `d`
    pub fn sd(&mut self, name: &str, d: Fr) -> Scalar {
        symcore::with_arena(|a| {
            a.assign.entry(name.to_string()).or_insert(d);
        });
        self.s(name)
    }
    /// integer parameter of a replay case
    pub fn int(&mut self, _: &str, d: u64) -> u64 {
        d
    }
    /// value of a symbolic scalar under the current assignment
    pub fn val(&self, s: &Scalar) -> Fr {
        symcore::val(s.v())
    }
    /// pseudo-random constants (not symbolic)
    pub fn ks(&self, name: &str) -> Scalar {
        Scalar::mk(V::konst(Fr::prf(&format!("const:{}", name), 0)))
    }
    pub fn sc(&self, f: Fr) -> Scalar {
        Scalar::mk(V::konst(f))
    }
    pub fn g1k(&self, f: Fr) -> G1Projective {
        G1Projective::mk(V::konst(f))
    }
    pub fn g2k(&self, f: Fr) -> G2Projective {
        G2Projective::mk(V::konst(f))
    }
    /// [s]G, for a possibly symbolic s
    pub fn g1s(&self, s: &Scalar) -> G1Projective {
        G1Projective::mk(s.v())
    }
    pub fn g2s(&self, s: &Scalar) -> G2Projective {
        G2Projective::mk(s.v())
    }
    pub fn eq_s(&mut self, label: &str, got: &Scalar, want: &Scalar) {
        let d = if symcore::with_arena(|a| a.same(got.v(), want.v())) { V::ZERO } else { symcore::sub(got.v(), want.v()) };
        self.claims.push(Claim { label: label.into(), what: What::Zero(d) });
    }
    pub fn eq_g(&mut self, label: &str, got: &G1Projective, want: &G1Projective) {
        let d = if symcore::with_arena(|a| a.same(got.v(), want.v())) { V::ZERO } else { symcore::sub(got.v(), want.v()) };
        self.claims.push(Claim { label: label.into(), what: What::Zero(d) });
    }
    pub fn eq_g2(&mut self, label: &str, got: &G2Projective, want: &G2Projective) {
        let d = if symcore::with_arena(|a| a.same(got.v(), want.v())) { V::ZERO } else { symcore::sub(got.v(), want.v()) };
        self.claims.push(Claim { label: label.into(), what: What::Zero(d) });
    }
    pub fn ok(&mut self, label: &str, b: bool, detail: impl FnOnce() -> String) {
        let d = if b { String::new() } else { detail() };
        self.claims.push(Claim { label: label.into(), what: What::Bool(b, d) });
        if !b && self.claims.iter().filter(|c| matches!(c.what, What::Bool(false, _))).count() >= 2 {
            // enough for a verdict; what follows may be expensive on broken code
            std::panic::panic_any(Stop);
        }
    }
    pub fn iff(&mut self, label: &str, accepted: bool, spec: &[Scalar]) {
        let spec = spec.iter().map(|s| s.v()).collect();
        self.claims.push(Claim { label: label.into(), what: What::Iff { accepted, spec } });
    }
    pub fn unconditional(&mut self, label: &str) {
        self.claims.push(Claim { label: label.into(), what: What::Unconditional });
    }
    pub fn lin_s(&mut self, label: &str, outs: &[Scalar], names: &[String], want: LinFn) {
        let outs = outs.iter().map(|s| s.v()).collect();
        self.claims.push(Claim { label: label.into(), what: What::Lin { outs, names: names.to_vec(), want } });
    }
    pub fn lin_g(&mut self, label: &str, outs: &[G1Projective], names: &[String], want: LinFn) {
        let outs = outs.iter().map(|s| s.v()).collect();
        self.claims.push(Claim { label: label.into(), what: What::Lin { outs, names: names.to_vec(), want } });
    }
    /// Run code that may panic.
    pub fn guard<T>(&self, f: impl FnOnce() -> T) -> Result<T, String> {
        catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
    }
    /// transcripts hashed so far, with the challenge each produced
    pub fn hashes(&self) -> Vec<(Vec<u8>, Scalar)> {
        symcore::with_arena(|a| a.hashes.iter().map(|h| (h.transcript.clone(), Scalar::mk(h.var))).collect())
    }
    /// encodings: 0 = not on the curve, 1 = on the curve but outside the subgroup
    pub fn bad_g1(&self, which: u32, k: u64) -> [u8; 48] {
        match which {
            0 => {
                let mut b = [0xffu8; 48];
                b[0] = 0x80;
                b[47] = k as u8;
                b
            }
            // 2 and 3: torsion parts that cancel each other (of order three)
            2 => symcore::g1_bytes_of(Fr::from_u64(1000 + k), 1),
            3 => symcore::g1_bytes_of(Fr::from_u64(1000 + k), 2),
            _ => symcore::g1_bytes_of(Fr::from_u64(1000 + k), 3),
        }
    }
    pub fn bad_g2(&self, which: u32, k: u64) -> [u8; 96] {
        let mut b = [0u8; 96];
        b[..48].copy_from_slice(&self.bad_g1(which, k));
        b
    }
}

pub type CaseFn = Box<dyn Fn(&mut Cx)>;
#[derive(Clone, Copy)]
pub struct Budget {
    /// maximum number of executed paths
    pub paths: usize,
    /// maximum number of flips derived from one path
    pub flips: usize,
    /// nodes in a cone for the raw (un-normalised) encoding
    pub raw: usize,
}
pub struct Case {
    pub name: String,
    pub f: CaseFn,
    pub budget: Budget,
}

#[derive(Default)]
pub struct Stats {
    pub cases: usize,
    pub paths: usize,
    pub nodes: u64,
    pub events: u64,
    pub flips_infeasible: usize,
    pub flips_skipped: usize,
    pub claims: u64,
    pub residuals_zero: u64,
    pub raw_queries: u64,
    pub obligations: u64,
    pub obligations_distinct: u64,
    pub twins: u64,
    pub hashes: u64,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub exhausted: Vec<(String, usize, bool)>,
}
#[derive(Clone)]
pub struct Violation {
    pub case: String,
    pub label: String,
    pub detail: String,
    pub assign: Vec<(String, String)>,
    pub seed: u64,
}

pub struct Engine {
    pub solver: Solver,
    pub stats: Stats,
    pub violations: Vec<Violation>,
    pub inconclusive: Vec<String>,
    oblig_seen: HashSet<String>,
    pub stop_at: usize,
    pub deadline: Instant,
}

struct Run {
    ar: Arena,
    claims: Vec<Claim>,
    panic: Option<String>,
}

struct Stop;

fn run_case(case: &Case, assign: &HashMap<String, Fr>, seed: u64) -> Run {
    symcore::begin(assign.clone(), seed);
    let cx = Mutex::new(Cx { claims: vec![], seed });
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut g = cx.lock().unwrap();
        (case.f)(&mut g);
    }));
    let panic = r.err().filter(|e| !e.is::<Stop>()).map(|_| last_panic());
    let cx = match cx.into_inner() {
        Ok(c) => c,
        Err(p) => p.into_inner(),
    };
    Run { ar: symcore::end(), claims: cx.claims, panic }
}

fn modulus() -> String {
    let _ = MODULUS;
    // r as a decimal numeral
    let mut s = Fr::ONE.neg().dec();
    // r-1 ends in ...; add one textually
    let mut d: Vec<u8> = s.bytes().collect();
    let mut i = d.len();
    loop {
        i -= 1;
        if d[i] == b'9' {
            d[i] = b'0';
            if i == 0 {
                d.insert(0, b'1');
                break;
            }
        } else {
            d[i] += 1;
            break;
        }
    }
    s.clear();
    s.push_str(std::str::from_utf8(&d).unwrap());
    s
}

/// balanced decimal numeral of a field constant
fn num(f: Fr) -> String {
    let p = f.to_plain();
    let m = f.neg().to_plain();
    let lt = (0..4).rev().find_map(|i| if p[i] != m[i] { Some(m[i] < p[i]) } else { None }).unwrap_or(false);
    if lt {
        format!("(- {})", f.neg().dec())
    } else {
        f.dec()
    }
}

fn lin_expr(p: &Poly, used: &mut HashSet<MonoId>) -> String {
    if p.is_empty() {
        return "0".into();
    }
    let mut s = String::from("(+ 0");
    for (m, c) in p {
        if *m == MONO_ONE {
            s.push(' ');
            s.push_str(&num(*c));
        } else {
            used.insert(*m);
            if *c == Fr::ONE {
                s.push_str(&format!(" m{}", m));
            } else {
                s.push_str(&format!(" (* {} m{})", num(*c), m));
            }
        }
    }
    s.push(')');
    s
}

fn path_poly(n: &mut Norm, v: V) -> Poly {
    let p = n.poly(v);
    n.expand(&p)
}

impl Engine {
    pub fn new(secs: u64) -> Engine {
        Engine {
            solver: Solver::new(),
            stats: Stats::default(),
            violations: vec![],
            inconclusive: vec![],
            oblig_seen: HashSet::new(),
            stop_at: 3,
            deadline: Instant::now() + std::time::Duration::from_secs(secs),
        }
    }

    /// exists an assignment with all `eqs` zero, all `nes` nonzero, and some (any=true) or
    /// all (any=false) of `goals` nonzero / zero ?
    fn query(&mut self, eqs: &[Poly], nes: &[Poly], goals_nonzero: &[Poly], goals_zero: &[Poly]) -> Ans {
        let r = modulus();
        let mut used = HashSet::new();
        let mut body = String::new();
        let mut k = 0;
        let mut zero = |p: &Poly, used: &mut HashSet<MonoId>, body: &mut String| {
            body.push_str(&format!("(declare-const q{k} Int)(assert (= {} (* {r} q{k})))\n", lin_expr(p, used)));
            k += 1;
        };
        for p in eqs.iter().chain(goals_zero) {
            zero(p, &mut used, &mut body);
        }
        let mut ors = vec![];
        for (i, p) in nes.iter().chain(goals_nonzero).enumerate() {
            body.push_str(&format!(
                "(declare-const Q{i} Int)(declare-const e{i} Int)(assert (= {} (+ e{i} (* {r} Q{i}))))(assert (and (<= 0 e{i}) (< e{i} {r})))\n",
                lin_expr(p, &mut used)
            ));
            if i < nes.len() {
                body.push_str(&format!("(assert (> e{i} 0))\n"));
            } else {
                ors.push(format!("(> e{i} 0)"));
            }
        }
        if !ors.is_empty() {
            body.push_str(&format!("(assert (or {} false))\n", ors.join(" ")));
        }
        let mut decl = String::new();
        for m in used {
            decl.push_str(&format!("(declare-const m{m} Int)"));
        }
        self.solver.check(&(decl + "\n" + &body), 20_000)
    }

    /// Raw encoding of the cones of `outs` (linear DAGs only): every node the code computed
    /// becomes an integer equality modulo r; asks for an assignment with some output nonzero.
    fn raw_query(&mut self, ar: &Arena, outs: &[V], limit: usize) -> Option<Ans> {
        let mut ids: Vec<u32> = outs.iter().filter_map(|v| v.id()).collect();
        let mut seen: HashSet<u32> = HashSet::new();
        while let Some(n) = ids.pop() {
            if !seen.insert(n) {
                continue;
            }
            if seen.len() > limit {
                return None;
            }
            let nd = ar.nodes[n as usize];
            match nd.op {
                Op::Var => {}
                Op::Inv | Op::X | Op::Y => return None,
                _ => {
                    if nd.op == Op::Mul && nd.a & CBIT == 0 && nd.b & CBIT == 0 {
                        return None;
                    }
                    for x in [nd.a, nd.b] {
                        if x & CBIT == 0 {
                            ids.push(x);
                        }
                    }
                }
            }
        }
        if seen.is_empty() {
            return None;
        }
        let r = modulus();
        let mut order: Vec<u32> = seen.into_iter().collect();
        order.sort();
        let opn = |x: u32| if x & CBIT != 0 { num(ar.consts[(x & !CBIT) as usize]) } else { format!("v{x}") };
        let mut b = String::new();
        for n in order {
            let nd = ar.nodes[n as usize];
            let e = match nd.op {
                Op::Var => {
                    b.push_str(&format!("(declare-const v{n} Int)\n"));
                    continue;
                }
                Op::Add => format!("(+ {} {})", opn(nd.a), opn(nd.b)),
                Op::Sub => format!("(- {} {})", opn(nd.a), opn(nd.b)),
                Op::Neg => format!("(- {})", opn(nd.a)),
                Op::Mul => format!("(* {} {})", opn(nd.a), opn(nd.b)),
                _ => unreachable!(),
            };
            b.push_str(&format!(
                "(declare-const v{n} Int)(declare-const q{n} Int)(assert (= v{n} (- {e} (* {r} q{n}))))\n"
            ));
        }
        let mut ors = vec![];
        for (i, v) in outs.iter().enumerate() {
            if let Some(id) = v.id() {
                b.push_str(&format!("(declare-const e{i} Int)(declare-const Q{i} Int)(assert (= v{id} (+ e{i} (* {r} Q{i}))))(assert (and (<= 0 e{i}) (< e{i} {r})))\n"));
                ors.push(format!("(> e{i} 0)"));
            }
        }
        b.push_str(&format!("(assert (or {} false))\n", ors.join(" ")));
        self.stats.raw_queries += 1;
        Some(self.solver.check(&b, 60_000))
    }

    fn violation(&mut self, case: &Case, run: &Run, seed: u64, label: &str, detail: String) {
        let assign = run
            .ar
            .var_names
            .iter()
            .zip(&run.ar.var_nodes)
            .map(|(n, id)| (n.clone(), run.ar.vals[*id as usize].hex()))
            .collect();
        if self.violations.iter().filter(|v| v.case == case.name && v.label == label).count() == 0 {
            self.violations.push(Violation { case: case.name.clone(), label: label.into(), detail, assign, seed });
        }
    }

    pub fn full(&self) -> bool {
        self.violations.len() >= self.stop_at
    }

    pub fn explore(&mut self, case: &Case) {
        self.stats.cases += 1;
        let seed0 = 1u64;
        let mut work: Vec<(HashMap<String, Fr>, usize, Vec<usize>)> = vec![(HashMap::new(), 0, vec![])];
        let mut seen: HashSet<u64> = HashSet::new();
        let mut done = 0;
        let mut complete = true;
        let mut head = 0;
        while head < work.len() {
            if done >= case.budget.paths || self.full() || Instant::now() > self.deadline {
                complete = false;
                break;
            }
            let (assign, from, _) = work[head].clone();
            head += 1;
            let run = run_case(case, &assign, seed0);
            let sig = {
                use std::hash::{Hash, Hasher};
                let mut h = std::collections::hash_map::DefaultHasher::new();
                for e in &run.ar.events {
                    (e.kind as u8, e.zero).hash(&mut h);
                }
                run.panic.hash(&mut h);
                h.finish()
            };
            if !seen.insert(sig) && from > 0 {
                continue;
            }
            done += 1;
            self.stats.paths += 1;
            self.stats.nodes += run.ar.nodes.len() as u64;
            self.stats.events += run.ar.events.len() as u64;
            self.stats.hashes += run.ar.hashes.len() as u64;
            if self.stats.samples.len() < 12 {
                self.stats.samples.push(format!(
                    "{}: path {} ({} nodes, {} branch conditions of which {} zero, {} variables, {} claims)",
                    case.name,
                    done,
                    run.ar.nodes.len(),
                    run.ar.events.len(),
                    run.ar.events.iter().filter(|e| e.zero).count(),
                    run.ar.var_names.len(),
                    run.claims.len()
                ));
            }
            self.judge(case, &run, seed0, done == 1);
            if self.full() {
                break;
            }
            // flips
            if case.budget.paths <= 1 || run.ar.events.is_empty() {
                continue;
            }
            let evs: Vec<usize> = (from..run.ar.events.len()).filter(|&i| !run.ar.events[i].zero).collect();
            let pick: Vec<usize> = if evs.len() <= case.budget.flips {
                evs
            } else {
                self.stats.flips_skipped += evs.len() - case.budget.flips;
                complete = false;
                let k = case.budget.flips;
                let mut p: Vec<usize> = (0..k).map(|j| evs[j * evs.len() / k]).collect();
                p.dedup();
                p
            };
            let mut n = Norm::new(&run.ar);
            for i in pick {
                match self.solve_flip(&mut n, &run.ar, i) {
                    Some(a) => work.push((a, i + 1, vec![])),
                    None => self.stats.flips_infeasible += 1,
                }
            }
        }
        self.stats.exhausted.push((case.name.clone(), done, complete));
    }

    /// Assignment near the current one with event i zero and the earlier zero events kept.
    fn solve_flip(&mut self, n: &mut Norm, ar: &Arena, i: usize) -> Option<HashMap<String, Fr>> {
        let mut rr = Rref::default();
        for e in ar.events[..i].iter().filter(|e| e.zero) {
            let p = path_poly(n, e.node);
            rr.add(n, &p, &|_| true);
        }
        let p = path_poly(n, ar.events[i].node);
        let red = rr.reduce(n, &p);
        // z3 decides infeasible flips (the condition is a nonzero constant on this path)
        if red.iter().all(|t| t.0 == MONO_ONE) {
            let rows: Vec<Poly> = rr.rows.iter().map(|x| x.1.clone()).collect();
            let _ = self.query(&rows, &[], &[], &[red.clone()]);
            return None;
        }
        // choose a variable that occurs only affinely and in no earlier equality
        let mut cand = None;
        // setup elements (names starting with S) first: they do not enter the transcript
        let setup = |n: &Norm, t: &(MonoId, Fr)| n.mono_var(t.0).map_or(false, |k| ar.var_names[k as usize].starts_with('S'));
        let order: Vec<(MonoId, Fr)> =
            red.iter().rev().filter(|t| setup(n, t)).chain(red.iter().rev().filter(|t| !setup(n, t))).copied().collect();
        let setup_inside = n.vars_of(&red).iter().any(|k| ar.var_names[*k as usize].starts_with('S'));
        for t in order.iter() {
            if setup_inside && !setup(n, t) {
                break;
            }
            let Some(k) = n.mono_var(t.0) else { continue };
            let affine = red.iter().filter(|x| x.0 != t.0).all(|x| {
                let q = vec![*x];
                !n.vars_of(&q).contains(&k)
            });
            let name = &ar.var_names[k as usize];
            if name.starts_with('H') || name.starts_with("offcurve") {
                continue;
            }
            if affine {
                cand = Some((k, t.1));
                break;
            }
        }
        let mut vals: HashMap<u32, Fr> = HashMap::new();
        let cur = |n: &Norm, p: &Poly| n.eval(p);
        match cand {
            Some((k, c)) => {
                // value(red) = c*x_k + rest = 0
                let v = cur(n, &red);
                let xk = ar.vals[ar.var_nodes[k as usize] as usize];
                vals.insert(k, xk.sub(v.mul(c.inv())));
            }
            None => {
                // a single monomial: set one of its variables to zero
                if red.len() == 1 {
                    let vs = n.vars_of(&red);
                    let k = *vs.iter().find(|k| !ar.var_names[**k as usize].starts_with('H'))?;
                    vals.insert(k, Fr::ZERO);
                } else {
                    // affine in some variable with variable coefficients
                    let mut vs: Vec<u32> = n.vars_of(&red).into_iter().collect();
                    vs.sort_by_key(|k| (!ar.var_names[*k as usize].starts_with('S'), *k));
                    let mut found = None;
                    for k in vs {
                        if ar.var_names[k as usize].starts_with('H') {
                            continue;
                        }
                        // evaluate at x_k = 0 and 1 and check linearity by degree
                        let deg_ok = red.iter().all(|t| {
                            let mut ok = true;
                            for (a, e) in &n.monos[t.0 as usize] {
                                if n.atoms[*a as usize] == symcore::analysis::Atom::Var(k) && *e != 1 {
                                    ok = false;
                                }
                            }
                            ok
                        });
                        if !deg_ok {
                            continue;
                        }
                        let ev = |x: Fr| {
                            let mut acc = Fr::ZERO;
                            for (m, c) in &red {
                                let mv = n.mono_val(*m, &|a| match n.atoms[a as usize] {
                                    symcore::analysis::Atom::Var(j) if j == k => x,
                                    _ => n.atom_value(a),
                                });
                                acc = acc.add(c.mul(mv));
                            }
                            acc
                        };
                        let (f0, f1) = (ev(Fr::ZERO), ev(Fr::ONE));
                        let a = f1.sub(f0);
                        if !a.is_zero() {
                            found = Some((k, f0.neg().mul(a.inv())));
                            break;
                        }
                    }
                    let (k, v) = found?;
                    vals.insert(k, v);
                }
            }
        }
        // propagate to pivots of the earlier equalities
        let val_of = |n: &Norm, m: MonoId, vals: &HashMap<u32, Fr>| {
            n.mono_val(m, &|a| match n.atoms[a as usize] {
                symcore::analysis::Atom::Var(j) => {
                    vals.get(&j).copied().unwrap_or(ar.vals[ar.var_nodes[j as usize] as usize])
                }
                _ => n.atom_value(a),
            })
        };
        let mut upd = vec![];
        for (piv, row) in &rr.rows {
            if let Some(k) = n.mono_var(*piv) {
                if vals.contains_key(&k) {
                    continue;
                }
                let mut acc = Fr::ZERO;
                for (m, c) in row {
                    if m != piv {
                        acc = acc.add(c.mul(val_of(n, *m, &vals)));
                    }
                }
                upd.push((k, acc.neg()));
            }
        }
        for (k, v) in upd {
            vals.insert(k, v);
        }
        let mut a: HashMap<String, Fr> = HashMap::new();
        for (k, name) in ar.var_names.iter().enumerate() {
            if name.starts_with('H') && name[1..].chars().all(|c| c.is_ascii_digit()) {
                continue;
            }
            if name.contains('#') {
                continue;
            }
            let cur = ar.vals[ar.var_nodes[k] as usize];
            a.insert(name.clone(), vals.get(&(k as u32)).copied().unwrap_or(cur));
        }
        Some(a)
    }

    fn judge(&mut self, case: &Case, run: &Run, seed: u64, first: bool) {
        let ar = &run.ar;
        if let Some(p) = &run.panic {
            self.violation(case, run, seed, "panic", p.clone());
            return;
        }
        for n in &ar.notes {
            self.violation(case, run, seed, "model", n.clone());
        }
        // a run with linear claims, or one over whole blobs with nothing but equal encodings to show
        let wide = ar.nodes.len() > 200_000
            && ar.events.iter().filter(|e| e.zero).count() > 2000
            && run.claims.iter().all(|c| matches!(c.what, What::Bool(..) | What::Zero(..)));
        if wide || run.claims.iter().any(|c| matches!(c.what, What::Lin { .. })) {
            for c in &run.claims {
                self.stats.claims += 1;
                *self.stats.labels.entry(c.label.clone()).or_insert(0) += 1;
            }
            self.judge_big(case, run, seed);
            return;
        }
        let mut n = Norm::new(ar);
        let mut rr = Rref::default();
        let mut nes: Vec<Poly> = vec![];
        let zero_events = ar.events.iter().filter(|e| e.zero).count();
        let many = ar.events.len() > 3000;
        let iff = run.claims.iter().any(|c| matches!(c.what, What::Iff { .. }));
        for (i, e) in ar.events.iter().enumerate() {
            let late = i + 16 > ar.events.len();
            if e.zero {
                let p = path_poly(&mut n, e.node);
                rr.add(&n, &p, &|_| true);
            } else if iff && (e.kind == Kind::Pairing || ((!many || late) && e.kind != Kind::Collide)) {
                let p = path_poly(&mut n, e.node);
                if !p.is_empty() {
                    nes.push(p);
                }
            }
        }
        if n.overflow {
            self.inconclusive.push(format!("{}: path condition too large", case.name));
            return;
        }
        let eqs: Vec<Poly> = rr.rows.iter().map(|x| x.1.clone()).collect();
        // obligations of the point model
        self.discharge_obligations(case, run, seed, &mut n, &rr);
        let mut zeros: Vec<(String, V, Poly)> = vec![];
        for c in &run.claims {
            self.stats.claims += 1;
            *self.stats.labels.entry(c.label.clone()).or_insert(0) += 1;
            match &c.what {
                What::Bool(true, _) => {}
                What::Bool(false, d) => self.violation(case, run, seed, &c.label, d.clone()),
                What::Zero(v) => {
                    if !ar.val(*v).is_zero() {
                        let d = format!("residual nonzero under the assignment ({})", ar.val(*v).hex());
                        self.violation(case, run, seed, &c.label, d);
                        continue;
                    }
                    let p = n.poly(*v);
                    let p = n.expand(&p);
                    if n.overflow {
                        self.inconclusive.push(format!("{}: residual of {} too large", case.name, c.label));
                        n.overflow = false;
                        continue;
                    }
                    let p = self.close(&mut n, &rr, &p);
                    zeros.push((c.label.clone(), *v, p));
                }
                What::Iff { accepted, spec } => {
                    let all_zero = spec.iter().all(|v| ar.val(*v).is_zero());
                    if all_zero != *accepted {
                        let d = format!("accepted={} but the defining equation {}", accepted, if all_zero { "holds" } else { "fails" });
                        self.violation(case, run, seed, &c.label, d);
                        continue;
                    }
                    let mut ps = vec![];
                    for v in spec {
                        let p = path_poly(&mut n, *v);
                        if n.overflow {
                            self.inconclusive.push(format!("{}: {} too large", case.name, c.label));
                            return;
                        }
                        ps.push(self.close(&mut n, &rr, &p));
                    }
                    let a = if *accepted {
                        self.query(&eqs, &[], &nonempty(&ps), &[])
                    } else {
                        // reject although the equation holds: path condition with its
                        // disequalities, and every spec residual zero
                        let nn: Vec<Poly> = nes.iter().map(|p| self.close(&mut n, &rr, p)).collect();
                        // linear consequences of the equation
                        let mut r2 = rr.clone();
                        for p in &ps {
                            r2.add(&n, p, &|_| true);
                        }
                        let nn2: Vec<Poly> = nn.iter().map(|p| r2.reduce(&n, p)).collect();
                        let z: Vec<Poly> = r2.rows.iter().map(|x| x.1.clone()).collect();
                        if r2.inconsistent {
                            self.query(&[vec![(MONO_ONE, Fr::ONE)]], &[], &[], &[])
                        } else if nn2.iter().any(|p| p.is_empty()) {
                            let hit: Vec<Poly> = nn2.into_iter().filter(|p| p.is_empty()).take(1).collect();
                            self.query(&z, &hit, &[], &[])
                        } else {
                            self.query(&z, &nn2, &[], &[])
                        }
                    };
                    match a {
                        Ans::Unsat => {}
                        Ans::Sat => self.iff_witness(case, run, seed, c, *accepted, &mut n, &rr, &ps),
                        Ans::Unknown => self.inconclusive.push(format!("{}: {} solver unknown", case.name, c.label)),
                    }
                }
                What::Unconditional => {
                    let a = self.query(&[], &[], &nonempty(&eqs), &[]);
                    if a != Ans::Unsat && first {
                        self.inconclusive.push(format!("{}: {} holds only under {} path equalities", case.name, c.label, eqs.len()));
                    }
                }
                What::Lin { .. } => {}
            }
        }
        // residuals: one batched query per 64
        for ch in zeros.chunks(64) {
            let goals: Vec<Poly> = ch.iter().map(|x| x.2.clone()).collect();
            let a = if goals.iter().all(|g| g.is_empty()) {
                self.query(&[], &[], &goals, &[])
            } else {
                self.query(&eqs, &[], &goals, &[])
            };
            match a {
                Ans::Unsat => self.stats.residuals_zero += ch.len() as u64,
                Ans::Unknown => self.inconclusive.push(format!("{}: solver unknown", case.name)),
                Ans::Sat => {
                    // nonzero normal form although zero at this point: look for a witness
                    for (label, v, p) in ch.iter().filter(|x| !x.2.is_empty()) {
                        self.zero_witness(case, run, seed, label, *v, p, &mut n, &rr);
                    }
                }
            }
        }
        // the same claims on the unsimplified DAG, when the path has no equalities
        if case.budget.raw > 0 && zero_events == 0 && first {
            let outs: Vec<V> = run
                .claims
                .iter()
                .filter_map(|c| if let What::Zero(v) = &c.what { Some(*v) } else { None })
                .filter(|v| v.id().is_some())
                .collect();
            for ch in outs.chunks(16) {
                match self.raw_query(ar, ch, case.budget.raw) {
                    Some(Ans::Sat) => self.inconclusive.push(format!("{}: raw encoding disagrees with the normal form", case.name)),
                    Some(Ans::Unknown) | Some(Ans::Unsat) | None => {}
                }
            }
        }
        // reachability twin: the negated claim with one residual perturbed must be satisfiable
        if first {
            if let Some((_, _, _)) = zeros.first() {
                let m = n.mono(vec![(0, 1)]);
                if !n.atoms.is_empty() {
                    let p = vec![(m, Fr::ONE)];
                    let p = rr.reduce(&n, &p);
                    self.stats.twins += 1;
                    if !p.is_empty() && self.query(&eqs, &[], &[p], &[]) != Ans::Sat {
                        self.inconclusive.push(format!("{}: reachability twin not satisfiable", case.name));
                    }
                }
            }
        }
    }

    /// reduce a residual by the path equalities (linear, then by substitution)
    fn close(&mut self, n: &mut Norm, rr: &Rref, p: &Poly) -> Poly {
        if p.is_empty() || rr.rows.is_empty() {
            return p.clone();
        }
        let mut q = rr.reduce(n, p);
        if q.is_empty() {
            return q;
        }
        for (piv, row) in &rr.rows {
            let Some(k) = n.mono_var(*piv) else { continue };
            // x_k = -(row - x_k)
            let rest: Poly = row.iter().filter(|t| t.0 != *piv).map(|t| (t.0, t.1.neg())).collect();
            q = subst(n, &q, k, &rest);
            if n.overflow {
                n.overflow = false;
                return p.clone();
            }
        }
        rr.reduce(n, &q)
    }

    fn discharge_obligations(&mut self, case: &Case, run: &Run, seed: u64, n: &mut Norm, rr: &Rref) {
        if run.ar.obligations.is_empty() {
            return;
        }
        // first with every discrete logarithm whose coordinates were read as an independent unknown
        let mut nc = Norm::new(&run.ar);
        for nd in &run.ar.nodes {
            if matches!(nd.op, symcore::Op::X | symcore::Op::Y) && nd.a & CBIT == 0 {
                nc.cut.insert(nd.a);
            }
        }
        for o in &run.ar.obligations {
            self.stats.obligations += 1;
            let mut t: Poly = vec![];
            for (v, neg) in &o.parts {
                let p = nc.poly(*v);
                t = nc.padd(&t, &p, *neg);
            }
            let (px, py) = (nc.poly(o.x), nc.poly(o.y));
            let (rx, ry) = Self::xy_residual(&mut nc, &px, &py, &t);
            let over = std::mem::take(&mut nc.overflow);
            if !over && rx.is_empty() && ry.is_empty() && !t.is_empty() {
                let key = canon_key(&nc, &[&t, &px, &py]);
                if !self.oblig_seen.insert(key) {
                    continue;
                }
                self.stats.obligations_distinct += 1;
                let q = self.query(&[], &[], &[rx, ry], &[]);
                if q == Ans::Unsat {
                    continue;
                }
            }
            // X(t), Y(t): x*t^2 = 1, y*t^3 = 1 under the path equalities
            let t = n.poly(o.t);
            if t.is_empty() {
                self.violation(case, run, seed, "point arithmetic", "identity produced by affine formula".into());
                continue;
            }
            let (px, py) = (n.poly(o.x), n.poly(o.y));
            let (rx, ry) = Self::xy_residual(n, &px, &py, &t);
            if n.overflow {
                self.inconclusive.push(format!("{}: point obligation too large", case.name));
                n.overflow = false;
                continue;
            }
            let (rx, ry) = (self.close(n, rr, &rx), self.close(n, rr, &ry));
            self.stats.obligations_distinct += 1;
            match self.query(&[], &[], &[rx, ry], &[]) {
                Ans::Unsat => {}
                Ans::Sat => self.violation(
                    case,
                    run,
                    seed,
                    "point arithmetic",
                    "affine formula does not compute the sum of its operands".into(),
                ),
                Ans::Unknown => self.inconclusive.push(format!("{}: point obligation unknown", case.name)),
            }
        }
    }
    /// t^2 * x - 1 and t^3 * y - 1, denominators cleared and everything expanded
    fn xy_residual(n: &mut Norm, px: &Poly, py: &Poly, t: &Poly) -> (Poly, Poly) {
        let one = n.konst(Fr::ONE);
        let t2 = n.pmul(t, t);
        let t3 = n.pmul(&t2, t);
        let ax = n.pmul(px, &t2);
        let ay = n.pmul(py, &t3);
        let rx = n.padd(&ax, &one, true);
        let ry = n.padd(&ay, &one, true);
        (n.expand(&rx), n.expand(&ry))
    }

    /// Linear claims and the path equalities of a large run, by exact affine forms.
    fn judge_big(&mut self, case: &Case, run: &Run, seed: u64) {
        let ar = &run.ar;
        let nv = ar.var_names.len();
        // outputs: for each Lin claim its outputs, then Zero claims, then zero events
        let mut outs: Vec<V> = vec![];
        let mut lins: Vec<(usize, &str, usize, HashMap<usize, usize>, &LinFn)> = vec![];
        for c in &run.claims {
            match &c.what {
                What::Lin { outs: o, names, want } => {
                    let mut m = HashMap::new();
                    for (j, x) in names.iter().enumerate() {
                        match ar.var_by_name.get(x) {
                            Some(id) => {
                                m.insert(ar.nodes[*id as usize].a as usize, j);
                            }
                            None => {
                                self.inconclusive.push(format!("{}: variable {} unused", case.name, x));
                                return;
                            }
                        }
                    }
                    lins.push((outs.len(), &c.label, o.len(), m, want));
                    outs.extend(o);
                }
                _ => {}
            }
        }
        let z0 = outs.len();
        let mut zlab: Vec<String> = vec![];
        for c in &run.claims {
            if let What::Zero(v) = &c.what {
                outs.push(*v);
                zlab.push(c.label.clone());
            }
        }
        let e0 = outs.len();
        for e in ar.events.iter().filter(|e| e.zero) {
            outs.push(e.node);
        }
        // (output, column, residual)
        let r = affine_columns(ar, &outs, |col, got| {
            let mut bad: Vec<(usize, usize, Fr)> = vec![];
            for (off, _, len, m, want) in &lins {
                let w = if col == 0 { None } else { m.get(&(col - 1)).map(|j| want(*j)) };
                for i in 0..*len {
                    let d = match &w {
                        Some(w) => got[off + i].sub(w[i]),
                        None => got[off + i],
                    };
                    if !d.is_zero() {
                        bad.push((off + i, col, d));
                    }
                }
            }
            for (i, g) in got.iter().enumerate().skip(z0) {
                if !g.is_zero() {
                    bad.push((i, col, *g));
                }
            }
            if bad.len() > 200_000 {
                bad.truncate(200_000)
            }
            bad
        });
        let bad = match r {
            Ok(b) => b,
            Err(n) => {
                self.inconclusive.push(format!("{}: node {} is not affine in the inputs", case.name, n));
                return;
            }
        };
        let mut n = Norm::new(ar);
        let mut by: BTreeMap<usize, Poly> = BTreeMap::new();
        for (o, col, c) in bad {
            let m = if col == 0 { MONO_ONE } else { n.poly(V::sym(ar.var_nodes[col - 1]))[0].0 };
            by.entry(o).or_default().push((m, c));
        }
        let _ = nv;
        for p in by.values_mut() {
            p.sort_by_key(|t| t.0);
        }
        let mut rr = Rref::default();
        for (_, p) in by.range(e0..) {
            rr.add(&n, p, &|_| true);
        }
        let mut goals: Vec<Poly> = vec![];
        for o in 0..e0 {
            let label = if o >= z0 {
                zlab[o - z0].clone()
            } else {
                lins.iter().rev().find(|l| l.0 <= o).map(|l| l.1.to_string()).unwrap_or_default()
            };
            let p = by.get(&o).cloned().unwrap_or_default();
            let p = if rr.rows.is_empty() { p } else { rr.reduce(&n, &p) };
            if !p.is_empty() {
                let v = n.eval(&p);
                let show: Vec<String> = p.iter().take(3).map(|t| format!("{}*{}", t.1.hex(), n.mono_name(t.0))).collect();
                let sat = self.query(&[], &[], &[p.clone()], &[]);
                if !v.is_zero() && sat == Ans::Sat {
                    self.violation(case, run, seed, &label, format!("output {} differs: residual {} ...", o, show.join(" + ")));
                } else {
                    self.inconclusive.push(format!("{}: {} output {} without witness", case.name, label, o));
                }
                if self.full() {
                    return;
                }
                continue;
            }
            goals.push(p);
        }
        for ch in goals.chunks(512) {
            match self.query(&[], &[], ch, &[]) {
                Ans::Unsat => self.stats.residuals_zero += ch.len() as u64,
                _ => self.inconclusive.push(format!("{}: residual query not unsat", case.name)),
            }
        }
        for c in &run.claims {
            match &c.what {
                What::Bool(false, d) => self.violation(case, run, seed, &c.label, d.clone()),
                What::Unconditional => {
                    let rows: Vec<Poly> = by.range(e0..).map(|x| x.1.clone()).collect();
                    let a = self.query(&[], &[], &nonempty(&rows), &[]);
                    if a != Ans::Unsat {
                        self.inconclusive.push(format!("{}: {} holds only under {} path equalities", case.name, c.label, rows.len()));
                    }
                }
                What::Iff { accepted, spec } => {
                    let all_zero = spec.iter().all(|v| ar.val(*v).is_zero());
                    if all_zero != *accepted {
                        self.violation(case, run, seed, &c.label, format!("accepted={} but the defining condition {}", accepted, if all_zero { "holds" } else { "fails" }));
                        continue;
                    }
                    let ps: Vec<Poly> = spec.iter().map(|v| n.poly(*v)).map(|p| p.to_vec()).collect();
                    if *accepted {
                        let ps: Vec<Poly> = ps.iter().map(|p| rr.reduce(&n, p)).collect();
                        let eqs: Vec<Poly> = rr.rows.iter().map(|x| x.1.clone()).collect();
                        match self.query(&eqs, &[], &nonempty(&ps), &[]) {
                            Ans::Unsat => {}
                            a => self.inconclusive.push(format!("{}: {} {:?}", case.name, c.label, a)),
                        }
                    } else {
                        // the condition that rejected: the last nonzero events
                        let nz: Vec<V> = ar.events.iter().filter(|e| !e.zero).map(|e| e.node).rev().take(8).collect();
                        let cols = affine_columns(ar, &nz, |col, got| {
                            got.iter().enumerate().filter(|x| !x.1.is_zero()).map(|(i, c)| (i, col, *c)).collect()
                        });
                        let Ok(cols) = cols else {
                            self.inconclusive.push(format!("{}: rejecting condition not affine", case.name));
                            continue;
                        };
                        let mut np: Vec<Poly> = vec![vec![]; nz.len()];
                        for (i, col, k) in cols {
                            let m = if col == 0 { MONO_ONE } else { n.poly(V::sym(ar.var_nodes[col - 1]))[0].0 };
                            np[i].push((m, k));
                        }
                        for p in np.iter_mut() {
                            p.sort_by_key(|t| t.0);
                        }
                        let mut r2 = rr.clone();
                        for p in &ps {
                            r2.add(&n, p, &|_| true);
                        }
                        let np: Vec<Poly> = np.iter().map(|p| r2.reduce(&n, p)).collect();
                        let hit: Vec<Poly> = np.iter().filter(|p| p.is_empty()).take(1).cloned().collect();
                        let z: Vec<Poly> = r2.rows.iter().map(|x| x.1.clone()).collect();
                        let a = if hit.is_empty() { self.query(&z, &np, &[], &[]) } else { self.query(&z, &hit, &[], &[]) };
                        if a != Ans::Unsat {
                            self.inconclusive.push(format!("{}: {} rejecting path {:?}", case.name, c.label, a));
                        }
                    }
                }
                _ => {}
            }
        }
    }

    /// residual with nonzero normal form but zero value: re-run nearby assignments
    #[allow(clippy::too_many_arguments)]
    fn zero_witness(&mut self, case: &Case, run: &Run, _seed: u64, label: &str, _v: V, p: &Poly, n: &mut Norm, rr: &Rref) {
        for s in 2..6u64 {
            let a = self.reassign(run, n, rr, &[], s);
            let r2 = run_case(case, &a, s);
            for c in &r2.claims {
                if let What::Zero(v) = &c.what {
                    if c.label == label && !r2.ar.val(*v).is_zero() {
                        self.violation(case, &r2, s, label, "residual nonzero".into());
                        return;
                    }
                }
            }
        }
        let show: Vec<String> = p.iter().take(4).map(|t| format!("{}*{}", t.1.hex(), n.mono_name(t.0))).collect();
        self.inconclusive.push(format!("{}: {} residual {} without witness", case.name, label, show.join(" + ")));
    }
    #[allow(clippy::too_many_arguments)]
    fn iff_witness(&mut self, case: &Case, run: &Run, seed: u64, c: &Claim, accepted: bool, n: &mut Norm, rr: &Rref, ps: &[Poly]) {
        // accepted: another assignment on the same path with spec != 0;
        // rejected: an assignment with spec = 0 (solve it) that is still rejected
        for s in seed + 1..seed + 5 {
            let extra: Vec<Poly> = if accepted { vec![] } else { ps.to_vec() };
            let a = self.reassign(run, n, rr, &extra, s);
            let r2 = run_case(case, &a, s);
            for c2 in &r2.claims {
                if let What::Iff { accepted: acc, spec } = &c2.what {
                    if c2.label == c.label && *acc != spec.iter().all(|v| r2.ar.val(*v).is_zero()) {
                        self.violation(case, &r2, s, &c.label, format!("accepted={} contradicts the defining equation", acc));
                        return;
                    }
                }
            }
        }
        self.inconclusive.push(format!("{}: {} satisfiable without witness (accepted={})", case.name, c.label, accepted));
    }
    /// fresh values for the free variables, path equalities (and `extra`) kept
    fn reassign(&mut self, run: &Run, n: &mut Norm, rr: &Rref, extra: &[Poly], seed: u64) -> HashMap<String, Fr> {
        let ar = &run.ar;
        let mut r = rr.clone();
        for p in extra {
            r.add(n, p, &|_| true);
        }
        let mut vals: HashMap<u32, Fr> = HashMap::new();
        for (k, name) in ar.var_names.iter().enumerate() {
            vals.insert(k as u32, Fr::prf(name, seed * 7919));
        }
        for (k, name) in ar.var_names.iter().enumerate() {
            if name.starts_with('H') {
                vals.insert(k as u32, ar.vals[ar.var_nodes[k] as usize]);
            }
        }
        let mut upd = vec![];
        for (piv, row) in &r.rows {
            if let Some(k) = n.mono_var(*piv) {
                let mut acc = Fr::ZERO;
                for (m, c) in row {
                    if m != piv {
                        let mv = n.mono_val(*m, &|a| match n.atoms[a as usize] {
                            symcore::analysis::Atom::Var(j) => vals[&j],
                            _ => n.atom_value(a),
                        });
                        acc = acc.add(c.mul(mv));
                    }
                }
                upd.push((k, acc.neg()));
            }
        }
        for (k, v) in upd {
            vals.insert(k, v);
        }
        // equations that are still open (no single-variable pivot): solve each for a variable it
        // is affine in and that no equation before it mentions
        // (a challenge is a hash of the very values that are changed here, so an equation is made to
        // hold whatever the challenge: the coefficient of each of its powers separately)
        let mut eqs: Vec<Poly> = vec![];
        for p in rr.rows.iter().map(|x| &x.1).chain(extra.iter()) {
            let mut by: BTreeMap<Vec<(u32, i32)>, Poly> = BTreeMap::new();
            for (m, c) in p {
                let (hs, rest): (Vec<_>, Vec<_>) = n.monos[*m as usize].clone().into_iter().partition(|(a, _)| match n.atoms[*a as usize] {
                    symcore::analysis::Atom::Var(j) => ar.var_names[j as usize].starts_with('H'),
                    _ => false,
                });
                let rid = n.mono(rest);
                by.entry(hs).or_default().push((rid, *c));
            }
            eqs.extend(by.into_values());
        }
        let mut used: std::collections::BTreeSet<u32> = Default::default();
        for p in &eqs {
            let here = n.vars_of(p);
            let eval = |n: &Norm, vals: &HashMap<u32, Fr>, at: Option<(u32, Fr)>| {
                let mut acc = Fr::ZERO;
                for (m, c) in p {
                    acc = acc.add(c.mul(n.mono_val(*m, &|a| match n.atoms[a as usize] {
                        symcore::analysis::Atom::Var(j) => match at {
                            Some((k, v)) if k == j => v,
                            _ => vals[&j],
                        },
                        _ => n.atom_value(a),
                    })));
                }
                acc
            };
            if !eval(n, &vals, None).is_zero() {
                for k in here.iter().rev() {
                    if used.contains(k) || ar.var_names[*k as usize].starts_with('H') {
                        continue;
                    }
                    let at = |v: u64| eval(n, &vals, Some((*k, Fr::from_u64(v))));
                    let (f0, f1, f2) = (at(0), at(1), at(2));
                    let slope = f1.add(f0.neg());
                    if slope.is_zero() || f2.add(f1.neg()) != slope {
                        continue;
                    }
                    let v = f0.neg().mul(slope.inv());
                    vals.insert(*k, v);
                    break;
                }
            }
            used.extend(here);
        }
        ar.var_names
            .iter()
            .enumerate()
            .filter(|(_, nm)| !nm.contains('#') && !(nm.starts_with('H') && nm[1..].chars().all(|c| c.is_ascii_digit())))
            .map(|(k, nm)| (nm.clone(), vals[&(k as u32)]))
            .collect()
    }
}

fn subst(n: &mut Norm, p: &Poly, k: u32, q: &Poly) -> Poly {
    let mut by: BTreeMap<i32, Poly> = BTreeMap::new();
    for (m, c) in p {
        let mono = n.monos[*m as usize].clone();
        let mut e = 0;
        let mut rest = vec![];
        for (a, x) in mono {
            if n.atoms[a as usize] == symcore::analysis::Atom::Var(k) {
                e = x;
            } else {
                rest.push((a, x));
            }
        }
        if e < 0 {
            return p.clone();
        }
        let rid = n.mono(rest);
        by.entry(e).or_default().push((rid, *c));
    }
    let maxe = *by.keys().last().unwrap_or(&0);
    let mut acc: Poly = vec![];
    for e in (0..=maxe).rev() {
        if !acc.is_empty() {
            acc = n.pmul_full(&acc, q);
        }
        if let Some(x) = by.get_mut(&e) {
            x.sort_by_key(|t| t.0);
            acc = n.padd(&acc, &x.clone(), false);
        }
    }
    acc
}

/// key of a tuple of polynomials up to renaming of variables
fn canon_key(n: &Norm, ps: &[&Poly]) -> String {
    let mut ren: HashMap<u32, usize> = HashMap::new();
    let mut s = String::new();
    for p in ps {
        s.push('|');
        for (m, c) in p.iter() {
            s.push_str(&c.hex());
            for (a, e) in &n.monos[*m as usize] {
                let k = ren.len();
                let r = *ren.entry(*a).or_insert(k);
                s.push_str(&format!(".{}^{}", r, e));
            }
        }
    }
    s
}

fn nonempty(v: &[Poly]) -> Vec<Poly> {
    if v.is_empty() {
        vec![vec![]]
    } else {
        v.to_vec()
    }
}
