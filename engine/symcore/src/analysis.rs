//! Normal forms of DAG nodes, gradients, and SMT encodings.
use crate::fr::Fr;
use crate::{Arena, Op, Ref, CBIT, V};
use std::collections::HashMap;

pub type MonoId = u32;
/// monomial: sorted (atom, exponent) pairs; exponents may be negative
pub type Mono = Vec<(u32, i32)>;

/// Sparse Laurent polynomial: (monomial id, coefficient), sorted by id, no zero coefficient.
pub type Poly = Vec<(MonoId, Fr)>;

pub const MONO_ONE: MonoId = 0;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Atom {
    Var(u32),
    /// a polynomial (leading coefficient 1) used as a single symbol
    Def(u32),
    /// a DAG node whose definition is forgotten
    Cut(u32),
}

pub struct Norm<'a> {
    pub ar: &'a Arena,
    pub monos: Vec<Mono>,
    mono_idx: HashMap<Mono, MonoId>,
    pub atoms: Vec<Atom>,
    atom_idx: HashMap<Atom, u32>,
    pub defs: Vec<Poly>,
    def_idx: HashMap<Poly, u32>,
    cache: HashMap<u32, Poly>,
    mul_cache: HashMap<(MonoId, MonoId), MonoId>,
    pub expand_limit: usize,
    pub overflow: bool,
    pub cut: std::collections::HashSet<u32>,
}

impl<'a> Norm<'a> {
    pub fn new(ar: &'a Arena) -> Self {
        let mut s = Norm {
            ar,
            monos: vec![],
            mono_idx: HashMap::new(),
            atoms: vec![],
            atom_idx: HashMap::new(),
            defs: vec![],
            def_idx: HashMap::new(),
            cache: HashMap::new(),
            mul_cache: HashMap::new(),
            expand_limit: 400_000,
            overflow: false,
            cut: Default::default(),
        };
        s.mono(vec![]);
        s
    }
    pub fn mono(&mut self, m: Mono) -> MonoId {
        if let Some(&i) = self.mono_idx.get(&m) {
            return i;
        }
        let i = self.monos.len() as u32;
        self.monos.push(m.clone());
        self.mono_idx.insert(m, i);
        i
    }
    fn atom(&mut self, a: Atom) -> u32 {
        if let Some(&i) = self.atom_idx.get(&a) {
            return i;
        }
        let i = self.atoms.len() as u32;
        self.atoms.push(a.clone());
        self.atom_idx.insert(a, i);
        i
    }
    fn mono_mul(&mut self, a: MonoId, b: MonoId) -> MonoId {
        if a == MONO_ONE {
            return b;
        }
        if b == MONO_ONE {
            return a;
        }
        let k = if a < b { (a, b) } else { (b, a) };
        if let Some(&r) = self.mul_cache.get(&k) {
            return r;
        }
        let (x, y) = (&self.monos[a as usize], &self.monos[b as usize]);
        let mut out = Vec::with_capacity(x.len() + y.len());
        let (mut i, mut j) = (0, 0);
        while i < x.len() || j < y.len() {
            if j >= y.len() || (i < x.len() && x[i].0 < y[j].0) {
                out.push(x[i]);
                i += 1;
            } else if i >= x.len() || y[j].0 < x[i].0 {
                out.push(y[j]);
                j += 1;
            } else {
                let e = x[i].1 + y[j].1;
                if e != 0 {
                    out.push((x[i].0, e));
                }
                i += 1;
                j += 1;
            }
        }
        let r = self.mono(out);
        self.mul_cache.insert(k, r);
        r
    }
    fn mono_pow(&mut self, a: MonoId, e: i32) -> MonoId {
        let m: Mono = self.monos[a as usize].iter().map(|(x, k)| (*x, k * e)).collect();
        self.mono(m)
    }
    pub fn konst(&self, c: Fr) -> Poly {
        if c.is_zero() {
            vec![]
        } else {
            vec![(MONO_ONE, c)]
        }
    }
    pub fn padd(&self, a: &Poly, b: &Poly, sub: bool) -> Poly {
        let mut out = Vec::with_capacity(a.len() + b.len());
        let (mut i, mut j) = (0, 0);
        while i < a.len() || j < b.len() {
            if j >= b.len() || (i < a.len() && a[i].0 < b[j].0) {
                out.push(a[i]);
                i += 1;
            } else if i >= a.len() || b[j].0 < a[i].0 {
                out.push((b[j].0, if sub { b[j].1.neg() } else { b[j].1 }));
                j += 1;
            } else {
                let c = if sub { a[i].1.sub(b[j].1) } else { a[i].1.add(b[j].1) };
                if !c.is_zero() {
                    out.push((a[i].0, c));
                }
                i += 1;
                j += 1;
            }
        }
        out
    }
    pub fn pscale(&self, a: &Poly, c: Fr) -> Poly {
        if c.is_zero() {
            return vec![];
        }
        a.iter().map(|(m, x)| (*m, x.mul(c))).collect()
    }
    fn pmul_mono(&mut self, a: &Poly, m: MonoId, c: Fr) -> Poly {
        if m == MONO_ONE {
            return self.pscale(a, c);
        }
        let mut out: Poly = a.iter().map(|(x, k)| (*x, k.mul(c))).collect();
        for t in out.iter_mut() {
            t.0 = self.mono_mul(t.0, m);
        }
        out.sort_by_key(|t| t.0);
        out
    }
    /// full expansion of a product
    pub fn pmul_full(&mut self, a: &Poly, b: &Poly) -> Poly {
        let mut acc: HashMap<MonoId, Fr> = HashMap::new();
        for (ma, ca) in a {
            for (mb, cb) in b {
                let m = self.mono_mul(*ma, *mb);
                let e = acc.entry(m).or_insert(Fr::ZERO);
                *e = e.add(ca.mul(*cb));
            }
            if acc.len() > self.expand_limit {
                self.overflow = true;
                return vec![];
            }
        }
        let mut v: Poly = acc.into_iter().filter(|(_, c)| !c.is_zero()).collect();
        v.sort_by_key(|t| t.0);
        v
    }
    /// (leading coefficient, atom) of a multi-term polynomial
    fn atomise(&mut self, p: &Poly) -> (Fr, u32) {
        let lead = p[0].1;
        let n = self.pscale(p, lead.inv());
        let d = match self.def_idx.get(&n) {
            Some(&d) => d,
            None => {
                let d = self.defs.len() as u32;
                self.defs.push(n.clone());
                self.def_idx.insert(n, d);
                d
            }
        };
        (lead, self.atom(Atom::Def(d)))
    }
    /// p as coefficient times a monomial (atomising sums)
    fn single(&mut self, p: &Poly) -> (MonoId, Fr) {
        if p.len() == 1 {
            return p[0];
        }
        // content: the largest monomial dividing every term
        let mut content: Mono = self.monos[p[0].0 as usize].clone();
        for (m, _) in &p[1..] {
            let mm = &self.monos[*m as usize];
            let mut out: Mono = vec![];
            let (mut i, mut j) = (0, 0);
            while i < content.len() || j < mm.len() {
                let (a, e) = if j >= mm.len() || (i < content.len() && content[i].0 < mm[j].0) {
                    i += 1;
                    (content[i - 1].0, content[i - 1].1.min(0))
                } else if i >= content.len() || mm[j].0 < content[i].0 {
                    j += 1;
                    (mm[j - 1].0, mm[j - 1].1.min(0))
                } else {
                    i += 1;
                    j += 1;
                    (mm[j - 1].0, content[i - 1].1.min(mm[j - 1].1))
                };
                if e != 0 {
                    out.push((a, e));
                }
            }
            content = out;
            if content.is_empty() {
                break;
            }
        }
        if content.is_empty() {
            let (c, a) = self.atomise(p);
            return (self.mono(vec![(a, 1)]), c);
        }
        let inv: Mono = content.iter().map(|(a, e)| (*a, -e)).collect();
        let inv = self.mono(inv);
        let q = self.pmul_mono(p, inv, Fr::ONE);
        let (c, a) = self.atomise(&q);
        let cm = self.mono(content);
        let am = self.mono(vec![(a, 1)]);
        (self.mono_mul(am, cm), c)
    }
    pub fn pmul(&mut self, a: &Poly, b: &Poly) -> Poly {
        if a.is_empty() || b.is_empty() {
            return vec![];
        }
        if a.len() == 1 {
            return self.pmul_mono(b, a[0].0, a[0].1);
        }
        if b.len() == 1 {
            return self.pmul_mono(a, b[0].0, b[0].1);
        }
        let (ma, ca) = self.single(a);
        let (mb, cb) = self.single(b);
        let m = self.mono_mul(ma, mb);
        vec![(m, ca.mul(cb))]
    }
    fn pinv(&mut self, a: &Poly, e: i32) -> Poly {
        if a.is_empty() {
            return vec![];
        }
        let (m, c) = self.single(a);
        let mm = self.mono_pow(m, -e);
        let mut k = Fr::ONE;
        let ci = c.inv();
        for _ in 0..e {
            k = k.mul(ci);
        }
        vec![(mm, k)]
    }
    fn opnd(&mut self, r: Ref) -> Poly {
        if r & CBIT != 0 {
            self.konst(self.ar.consts[(r & !CBIT) as usize])
        } else {
            self.cache[&r].clone()
        }
    }
    pub fn poly(&mut self, v: V) -> Poly {
        match v.as_const() {
            Some(c) => self.konst(c),
            None => self.poly_node(v.id().unwrap()),
        }
    }
    pub fn poly_node(&mut self, id: u32) -> Poly {
        let mut stack = vec![id];
        while let Some(&n) = stack.last() {
            if self.cache.contains_key(&n) {
                stack.pop();
                continue;
            }
            let nd = self.ar.nodes[n as usize];
            if nd.op == Op::Var || self.cut.contains(&n) {
                let a = self.atom(if nd.op == Op::Var { Atom::Var(nd.a) } else { Atom::Cut(n) });
                let m = self.mono(vec![(a, 1)]);
                self.cache.insert(n, vec![(m, Fr::ONE)]);
                stack.pop();
                continue;
            }
            let mut ready = true;
            for r in [nd.a, nd.b] {
                if r & CBIT == 0 && !self.cache.contains_key(&r) {
                    stack.push(r);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            let a = self.opnd(nd.a);
            let p = match nd.op {
                Op::Var => unreachable!(),
                Op::Add => {
                    let b = self.opnd(nd.b);
                    self.padd(&a, &b, false)
                }
                Op::Sub => {
                    let b = self.opnd(nd.b);
                    self.padd(&a, &b, true)
                }
                Op::Neg => self.pscale(&a, Fr::ONE.neg()),
                Op::Mul => {
                    let b = self.opnd(nd.b);
                    self.pmul(&a, &b)
                }
                Op::Inv => self.pinv(&a, 1),
                Op::X => self.pinv(&a, 2),
                Op::Y => self.pinv(&a, 3),
            };
            self.cache.insert(n, p);
            stack.pop();
        }
        self.cache[&id].clone()
    }
    /// Clear denominators and expand every defined atom: a polynomial over variables only.
    /// The result is zero iff the residual is zero wherever the inverted values are nonzero.
    pub fn expand(&mut self, p: &Poly) -> Poly {
        let mut p = p.clone();
        loop {
            // clear denominators
            let mut min: HashMap<u32, i32> = HashMap::new();
            for (m, _) in &p {
                for (a, e) in &self.monos[*m as usize] {
                    let x = min.entry(*a).or_insert(0);
                    *x = (*x).min(*e);
                }
            }
            let mut clear: Mono = min.into_iter().filter(|(_, e)| *e < 0).map(|(a, e)| (a, -e)).collect();
            if !clear.is_empty() {
                clear.sort();
                let c = self.mono(clear);
                p = self.pmul_mono(&p, c, Fr::ONE);
            }
            // expand the newest defined atom
            let mut top: Option<u32> = None;
            for (m, _) in &p {
                for (a, _) in &self.monos[*m as usize] {
                    if matches!(self.atoms[*a as usize], Atom::Def(_)) {
                        top = Some(top.map_or(*a, |t: u32| t.max(*a)));
                    }
                }
            }
            let Some(t) = top else { return p };
            let Atom::Def(d) = self.atoms[t as usize] else { unreachable!() };
            // group by exponent of t, Horner
            let mut by: HashMap<i32, Poly> = HashMap::new();
            let mut maxe = 0;
            for (m, c) in &p {
                let mono = self.monos[*m as usize].clone();
                let e = mono.iter().find(|(a, _)| *a == t).map(|x| x.1).unwrap_or(0);
                let rest: Mono = mono.into_iter().filter(|(a, _)| *a != t).collect();
                let rid = self.mono(rest);
                by.entry(e).or_default().push((rid, *c));
                maxe = maxe.max(e);
            }
            for q in by.values_mut() {
                q.sort_by_key(|x| x.0);
            }
            let def = self.defs[d as usize].clone();
            let mut acc: Poly = vec![];
            for e in (0..=maxe).rev() {
                if !acc.is_empty() {
                    acc = self.pmul_full(&acc, &def);
                    if self.overflow {
                        return vec![];
                    }
                }
                if let Some(q) = by.get(&e) {
                    acc = self.padd(&acc, q, false);
                }
            }
            p = acc;
        }
    }
    pub fn mono_val(&self, m: MonoId, atom_val: &dyn Fn(u32) -> Fr) -> Fr {
        let mut r = Fr::ONE;
        for (a, e) in &self.monos[m as usize] {
            let mut b = atom_val(*a);
            if *e < 0 {
                b = b.inv();
            }
            r = r.mul(b.pow_u(e.unsigned_abs() as u64));
        }
        r
    }
    /// value of an atom under the arena's assignment
    pub fn atom_value(&self, a: u32) -> Fr {
        match self.atoms[a as usize] {
            Atom::Var(k) => self.ar.vals[self.ar.var_nodes[k as usize] as usize],
            Atom::Def(d) => self.eval(&self.defs[d as usize]),
            Atom::Cut(n) => self.ar.vals[n as usize],
        }
    }
    pub fn eval(&self, p: &Poly) -> Fr {
        let mut acc = Fr::ZERO;
        for (m, c) in p {
            acc = acc.add(c.mul(self.mono_val(*m, &|a| self.atom_value(a))));
        }
        acc
    }
    pub fn mono_name(&self, m: MonoId) -> String {
        if m == MONO_ONE {
            return "1".into();
        }
        self.monos[m as usize]
            .iter()
            .map(|(a, e)| {
                let n = match &self.atoms[*a as usize] {
                    Atom::Var(k) => self.ar.var_names[*k as usize].clone(),
                    Atom::Def(d) => format!("<{}>", d),
                    Atom::Cut(n) => format!("cut{}", n),
                };
                if *e == 1 {
                    n
                } else {
                    format!("{}^{}", n, e)
                }
            })
            .collect::<Vec<_>>()
            .join("*")
    }
    /// variable index if the monomial is a single variable to the first power
    pub fn mono_var(&self, m: MonoId) -> Option<u32> {
        let mm = &self.monos[m as usize];
        if mm.len() == 1 && mm[0].1 == 1 {
            if let Atom::Var(k) = self.atoms[mm[0].0 as usize] {
                return Some(k);
            }
        }
        None
    }
    pub fn vars_of(&self, p: &Poly) -> Vec<u32> {
        let mut s = std::collections::BTreeSet::new();
        for (m, _) in p {
            for (a, _) in &self.monos[*m as usize] {
                match self.atoms[*a as usize] {
                    Atom::Cut(_) => {}
                    Atom::Var(k) => {
                        s.insert(k);
                    }
                    Atom::Def(d) => {
                        let q = self.defs[d as usize].clone();
                        for v in self.vars_of(&q) {
                            s.insert(v);
                        }
                    }
                }
            }
        }
        s.into_iter().collect()
    }
}

// ---- reduced row echelon form over monomials ------------------------------------------

/// Linear equalities over monomials in reduced row echelon form.
#[derive(Default, Clone)]
pub struct Rref {
    /// pivot monomial -> row (pivot coefficient 1, pivot stored in the row)
    pub rows: Vec<(MonoId, Poly)>,
    pub inconsistent: bool,
}

impl Rref {
    pub fn reduce(&self, n: &Norm, p: &Poly) -> Poly {
        let mut p = p.clone();
        for (piv, row) in &self.rows {
            if let Ok(i) = p.binary_search_by_key(piv, |t| t.0) {
                let c = p[i].1;
                p = n.padd(&p, &n.pscale(row, c), true);
            }
        }
        p
    }
    pub fn add(&mut self, n: &Norm, p: &Poly, prefer: &dyn Fn(MonoId) -> bool) {
        let p = self.reduce(n, p);
        if p.is_empty() {
            return;
        }
        let piv = p
            .iter()
            .rev()
            .find(|t| t.0 != MONO_ONE && n.mono_var(t.0).is_some() && prefer(t.0))
            .or_else(|| p.iter().rev().find(|t| t.0 != MONO_ONE && n.mono_var(t.0).is_some()))
            .or_else(|| p.iter().rev().find(|t| t.0 != MONO_ONE))
            .copied();
        let Some((piv, c)) = piv else {
            self.inconsistent = true;
            return;
        };
        let row = n.pscale(&p, c.inv());
        for (_, r) in self.rows.iter_mut() {
            if let Ok(i) = r.binary_search_by_key(&piv, |t| t.0) {
                let c = r[i].1;
                *r = n.padd(r, &n.pscale(&row, c), true);
            }
        }
        self.rows.push((piv, row));
    }
}

/// Forward sweep: the affine form of every requested node, one block of variables at a time.
/// `judge(col, coefs)` receives, for column `col` (0 = constant term, j+1 = variable j), the
/// coefficient of every requested output, and returns whatever it wants to keep.
/// Returns Err(node) when a node is not affine in the variables.
pub fn affine_columns<T: Send>(
    ar: &Arena,
    outs: &[V],
    judge: impl Fn(usize, &[Fr]) -> Vec<T> + Sync,
) -> Result<Vec<T>, u32> {
    const B: usize = 4;
    let maxid = outs.iter().filter_map(|v| v.id()).max();
    let nv = ar.var_names.len();
    let nn = maxid.map(|x| x as usize + 1).unwrap_or(0);
    // cone
    let mut need = vec![false; nn];
    for v in outs {
        if let Some(i) = v.id() {
            need[i as usize] = true;
        }
    }
    for i in (0..nn).rev() {
        if need[i] {
            let nd = ar.nodes[i];
            if nd.op != Op::Var {
                for r in [nd.a, nd.b] {
                    if r & CBIT == 0 {
                        need[r as usize] = true;
                    }
                }
            }
        }
    }
    let order: Vec<u32> = (0..nn as u32).filter(|i| need[*i as usize]).collect();
    let mut pos = vec![u32::MAX; nn];
    for (k, i) in order.iter().enumerate() {
        pos[*i as usize] = k as u32;
    }
    // which nodes depend on a variable at all (affine part), and nonlinearity
    let mut dep = vec![false; order.len()];
    for (k, i) in order.iter().enumerate() {
        let nd = ar.nodes[*i as usize];
        let d = |r: Ref| r & CBIT == 0 && dep[pos[r as usize] as usize];
        dep[k] = match nd.op {
            Op::Var => true,
            Op::Add | Op::Sub => d(nd.a) || d(nd.b),
            Op::Neg => d(nd.a),
            Op::Mul => {
                if d(nd.a) && d(nd.b) {
                    return Err(*i);
                }
                d(nd.a) || d(nd.b)
            }
            Op::Inv | Op::X | Op::Y => {
                if d(nd.a) {
                    return Err(*i);
                }
                false
            }
        };
    }
    let nblocks = (nv + 1).div_ceil(B);
    let next = std::sync::atomic::AtomicUsize::new(0);
    let nth = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(nblocks.max(1));
    let mut all: Vec<T> = vec![];
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..nth)
            .map(|_| {
                s.spawn(|| {
                    let mut mine = vec![];
                    let mut buf: Vec<[Fr; B]> = vec![[Fr::ZERO; B]; order.len()];
                    let mut col = vec![Fr::ZERO; outs.len()];
                    loop {
                        let b = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                        if b >= nblocks {
                            return mine;
                        }
                        let lo = b * B;
                        let cval = |r: Ref| ar.consts[(r & !CBIT) as usize];
                        for (k, i) in order.iter().enumerate() {
                            let nd = ar.nodes[*i as usize];
                            // columns of an operand; the constant column carries constants
                            let get = |r: Ref, buf: &Vec<[Fr; B]>| -> [Fr; B] {
                                if r & CBIT != 0 {
                                    let mut x = [Fr::ZERO; B];
                                    if lo == 0 {
                                        x[0] = cval(r);
                                    }
                                    x
                                } else {
                                    buf[pos[r as usize] as usize]
                                }
                            };
                            let scale = |x: [Fr; B], c: Fr| {
                                let mut o = [Fr::ZERO; B];
                                for j in 0..B {
                                    if !x[j].is_zero() {
                                        o[j] = x[j].mul(c);
                                    }
                                }
                                o
                            };
                            let isdep = |r: Ref| r & CBIT == 0 && dep[pos[r as usize] as usize];
                            let v = if !dep[k] {
                                let mut x = [Fr::ZERO; B];
                                if lo == 0 {
                                    x[0] = ar.vals[*i as usize];
                                }
                                x
                            } else {
                                match nd.op {
                                    Op::Var => {
                                        let mut x = [Fr::ZERO; B];
                                        let c = nd.a as usize + 1;
                                        if c >= lo && c < lo + B {
                                            x[c - lo] = Fr::ONE;
                                        }
                                        x
                                    }
                                    Op::Add | Op::Sub => {
                                        let (x, y) = (get(nd.a, &buf), get(nd.b, &buf));
                                        let mut o = [Fr::ZERO; B];
                                        for j in 0..B {
                                            o[j] = if nd.op == Op::Add { x[j].add(y[j]) } else { x[j].sub(y[j]) };
                                        }
                                        o
                                    }
                                    Op::Neg => {
                                        let x = get(nd.a, &buf);
                                        let mut o = [Fr::ZERO; B];
                                        for j in 0..B {
                                            o[j] = x[j].neg();
                                        }
                                        o
                                    }
                                    Op::Mul => {
                                        let (l, c) = if isdep(nd.a) { (nd.a, nd.b) } else { (nd.b, nd.a) };
                                        scale(get(l, &buf), ar.rval(c))
                                    }
                                    _ => unreachable!(),
                                }
                            };
                            buf[k] = v;
                        }
                        for j in 0..B {
                            if lo + j > nv {
                                break;
                            }
                            for (o, v) in outs.iter().enumerate() {
                                col[o] = match v.as_const() {
                                    Some(c) => {
                                        if lo + j == 0 {
                                            c
                                        } else {
                                            Fr::ZERO
                                        }
                                    }
                                    None => buf[pos[v.id().unwrap() as usize] as usize][j],
                                };
                            }
                            mine.extend(judge(lo + j, &col));
                        }
                    }
                })
            })
            .collect();
        for h in hs {
            all.extend(h.join().expect("affine worker"));
        }
    });
    Ok(all)
}
