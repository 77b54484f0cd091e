//! Symbolic core shared by the stand-in crates (`blstrs`, `blst`, `sha2`) that the real
//! repository crates are compiled against.
//!
//! A value is 256 bits: top bit clear = a constant of F_r in Montgomery form, top bit set =
//! the index of a node of the expression DAG recorded while the real code runs.  Every node
//! also carries its concrete value under the current assignment (concolic execution); every
//! branch the code takes on a symbolic value is recorded as a path event.
pub mod analysis;
pub mod fr;

use fr::Fr;
use std::collections::HashMap;
use std::sync::{Mutex, MutexGuard};

/// 256-bit value handle.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Default)]
pub struct V(pub [u64; 4]);

const SYM: u64 = 1 << 63;

impl V {
    pub const ZERO: V = V([0; 4]);
    pub const ONE: V = V(Fr::ONE.0);
    pub const fn konst(f: Fr) -> V {
        V(f.0)
    }
    pub fn sym(id: u32) -> V {
        V([id as u64, 0x5359_4d42_4f4c_4943, 0, SYM])
    }
    #[inline]
    pub fn id(self) -> Option<u32> {
        if self.0[3] & SYM != 0 {
            Some(self.0[0] as u32)
        } else {
            None
        }
    }
    #[inline]
    pub fn as_const(self) -> Option<Fr> {
        if self.0[3] & SYM == 0 {
            Some(Fr(self.0))
        } else {
            None
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    Var,
    Add,
    Sub,
    Neg,
    Mul,
    Inv,
    /// x = t^-2 : affine x coordinate of the point with discrete log t
    X,
    /// y = t^-3
    Y,
}

/// An operand: node index, or constant index with the top bit set.
pub type Ref = u32;
pub const CBIT: u32 = 1 << 31;

#[derive(Clone, Copy, Debug)]
pub struct Node {
    pub op: Op,
    pub a: Ref,
    pub b: Ref,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    /// branch on "value == 0" in the scalar field
    ScalarEq,
    /// branch on equality / identity of group elements
    PointEq,
    /// branch in the base field
    FpEq,
    /// invertibility test
    Invert,
    /// pairing product == 1
    Pairing,
    /// two encodings coincide under this assignment (implicit equality)
    Collide,
    /// the code looked at the integer representative (bits, ordering)
    Concretize,
    /// identity found among the points of a multi-exponentiation
    MsmIdentity,
}

#[derive(Clone, Debug)]
pub struct Event {
    pub kind: Kind,
    pub node: V,
    /// true when node == 0 under the current assignment
    pub zero: bool,
}

#[derive(Clone, Debug)]
pub struct HashCall {
    pub transcript: Vec<u8>,
    pub digest: [u8; 32],
    pub var: V,
}

/// Proof obligation: (x, y) are the affine coordinates of the element with discrete log t.
#[derive(Clone, Debug)]
pub struct Obligation {
    pub x: V,
    pub y: V,
    pub t: V,
    /// t as a signed sum of known discrete logs
    pub parts: Vec<(V, bool)>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Decoded {
    Invalid,
    /// discrete log, in prime-order subgroup
    Point(V, u64),
}

#[derive(Default)]
pub struct Arena {
    pub nodes: Vec<Node>,
    pub vals: Vec<Fr>,
    pub consts: Vec<Fr>,
    pub var_names: Vec<String>,
    pub var_nodes: Vec<u32>,
    pub var_by_name: HashMap<String, u32>,
    pub events: Vec<Event>,
    pub hashes: Vec<HashCall>,
    pub obligations: Vec<Obligation>,
    pub assign: HashMap<String, Fr>,
    pub seed: u64,
    pub notes: Vec<String>,
    scalar_bytes: HashMap<[u8; 32], u32>,
    digest_bytes: HashMap<[u8; 32], V>,
    g1_bytes: HashMap<[u8; 48], V>,
    g2_bytes: HashMap<[u8; 96], V>,
    xnode: HashMap<u32, (V, V)>,
    /// nodes found to be the same expression as an earlier one
    twin: HashMap<u32, u32>,
    /// nodes already recorded as colliding with the first node of their encoding
    alias: HashMap<u32, Vec<V>>,
    konst_points: std::collections::HashSet<[u64; 4]>,
}

static ARENA: Mutex<Option<Arena>> = Mutex::new(None);

fn lock() -> MutexGuard<'static, Option<Arena>> {
    match ARENA.lock() {
        Ok(g) => g,
        Err(p) => p.into_inner(),
    }
}

fn with<T>(f: impl FnOnce(&mut Arena) -> T) -> T {
    let mut g = lock();
    let a = g.get_or_insert_with(Arena::default);
    f(a)
}

impl Arena {
    pub fn val(&self, v: V) -> Fr {
        match v.as_const() {
            Some(c) => c,
            None => self.vals[v.0[0] as usize],
        }
    }
    pub fn rval(&self, r: Ref) -> Fr {
        if r & CBIT != 0 {
            self.consts[(r & !CBIT) as usize]
        } else {
            self.vals[r as usize]
        }
    }
    fn rf(&mut self, v: V) -> Ref {
        match v.as_const() {
            None => v.0[0] as u32,
            Some(c) => {
                self.consts.push(c);
                (self.consts.len() as u32 - 1) | CBIT
            }
        }
    }
    fn push(&mut self, op: Op, a: V, b: V, val: Fr) -> V {
        let ra = self.rf(a);
        let rb = if matches!(op, Op::Add | Op::Sub | Op::Mul) { self.rf(b) } else { ra };
        self.nodes.push(Node { op, a: ra, b: rb });
        self.vals.push(val);
        V::sym(self.nodes.len() as u32 - 1)
    }
    pub fn var(&mut self, name: &str) -> V {
        if let Some(&id) = self.var_by_name.get(name) {
            return V::sym(id);
        }
        let val = match self.assign.get(name) {
            Some(v) => *v,
            None => Fr::prf(name, self.seed),
        };
        let k = self.var_names.len() as u32;
        self.var_names.push(name.to_string());
        self.nodes.push(Node { op: Op::Var, a: k, b: k });
        self.vals.push(val);
        let id = self.nodes.len() as u32 - 1;
        self.var_nodes.push(id);
        self.var_by_name.insert(name.to_string(), id);
        V::sym(id)
    }
    pub fn add(&mut self, a: V, b: V) -> V {
        match (a.as_const(), b.as_const()) {
            (Some(x), Some(y)) => return V::konst(x.add(y)),
            (Some(x), None) if x.is_zero() => return b,
            (None, Some(y)) if y.is_zero() => return a,
            _ => {}
        }
        let v = self.val(a).add(self.val(b));
        self.push(Op::Add, a, b, v)
    }
    pub fn sub(&mut self, a: V, b: V) -> V {
        match (a.as_const(), b.as_const()) {
            (Some(x), Some(y)) => return V::konst(x.sub(y)),
            (Some(x), None) if x.is_zero() => return self.neg(b),
            (None, Some(y)) if y.is_zero() => return a,
            _ => {}
        }
        if a == b {
            return V::ZERO;
        }
        let v = self.val(a).sub(self.val(b));
        self.push(Op::Sub, a, b, v)
    }
    pub fn neg(&mut self, a: V) -> V {
        if let Some(x) = a.as_const() {
            return V::konst(x.neg());
        }
        let v = self.val(a).neg();
        self.push(Op::Neg, a, a, v)
    }
    pub fn mul(&mut self, a: V, b: V) -> V {
        match (a.as_const(), b.as_const()) {
            (Some(x), Some(y)) => return V::konst(x.mul(y)),
            (Some(x), None) => {
                if x.is_zero() {
                    return V::ZERO;
                }
                if x == Fr::ONE {
                    return b;
                }
            }
            (None, Some(y)) => {
                if y.is_zero() {
                    return V::ZERO;
                }
                if y == Fr::ONE {
                    return a;
                }
            }
            _ => {}
        }
        let v = self.val(a).mul(self.val(b));
        self.push(Op::Mul, a, b, v)
    }
    pub fn inv(&mut self, a: V) -> V {
        if let Some(x) = a.as_const() {
            return V::konst(x.inv());
        }
        let v = self.val(a).inv();
        self.push(Op::Inv, a, a, v)
    }
    fn event(&mut self, kind: Kind, node: V) -> bool {
        let zero = self.val(node).is_zero();
        if node.id().is_some() {
            self.events.push(Event { kind, node, zero });
        }
        zero
    }
    /// Branch: is v zero?
    pub fn is_zero(&mut self, kind: Kind, v: V) -> bool {
        self.event(kind, v)
    }
    /// the same expression, node for node (false says nothing)
    pub fn same(&mut self, a: V, b: V) -> bool {
        if a == b {
            return true;
        }
        let (Some(x), Some(y)) = (a.id(), b.id()) else { return false };
        let mut seen: HashMap<u32, u32> = HashMap::new();
        let mut stack = vec![(x, y)];
        while let Some((x, y)) = stack.pop() {
            let (lo, hi) = (x.min(y), x.max(y));
            if lo == hi || self.twin.get(&hi) == Some(&lo) || seen.get(&hi) == Some(&lo) {
                continue;
            }
            let (n, m) = (self.nodes[lo as usize], self.nodes[hi as usize]);
            if n.op != m.op || n.op == Op::Var || self.vals[lo as usize] != self.vals[hi as usize] {
                return false;
            }
            seen.insert(hi, lo);
            let mut ops = vec![(n.a, m.a)];
            if matches!(n.op, Op::Add | Op::Sub | Op::Mul) {
                ops.push((n.b, m.b));
            }
            for (p, q) in ops {
                match (p & CBIT, q & CBIT) {
                    (0, 0) => stack.push((p, q)),
                    (0, _) | (_, 0) => return false,
                    _ if self.rval(p) != self.rval(q) => return false,
                    _ => {}
                }
            }
        }
        self.twin.extend(seen);
        true
    }
    /// two values with one encoding, p the first: an event unless it is known already
    fn collide(&mut self, p: V, v: V) {
        if p == v || self.same(p, v) {
            return;
        }
        let key = p.id().unwrap_or(v.id().unwrap_or(u32::MAX));
        let known = self.alias.get(&key).cloned().unwrap_or_default();
        if known.into_iter().any(|q| self.same(q, v)) {
            return;
        }
        let d = self.sub(p, v);
        if d.id().is_some() {
            self.events.push(Event { kind: Kind::Collide, node: d, zero: true });
        }
        self.alias.entry(key).or_default().push(v);
    }
    /// Branch: a == b?
    pub fn eq(&mut self, kind: Kind, a: V, b: V) -> bool {
        if a == b {
            return true;
        }
        let d = self.sub(a, b);
        self.event(kind, d)
    }
    pub fn xy(&mut self, t: V) -> (V, V) {
        if self.is_zero(Kind::PointEq, t) {
            return (V::ZERO, V::ZERO);
        }
        if let Some(c) = t.as_const() {
            self.konst_points.insert(c.0);
            let i = c.inv();
            let x = i.mul(i);
            return (V::konst(x), V::konst(x.mul(i)));
        }
        let id = t.id().unwrap();
        if let Some(p) = self.xnode.get(&id) {
            return *p;
        }
        let i = self.val(t).inv();
        let xv = i.mul(i);
        let yv = xv.mul(i);
        let x = self.push(Op::X, t, t, xv);
        let y = self.push(Op::Y, t, t, yv);
        self.xnode.insert(id, (x, y));
        (x, y)
    }
    /// tc as a signed sum of the candidate l and one met before (or a constant)?
    fn combine_leaf(&mut self, x: V, y: V, tc: Fr, l: V, lv: Fr, idx: &HashMap<[u64; 4], V>) -> Option<V> {
        if lv == tc {
            // exactly a coordinate pair already known?
            if let Some(&(lx, ly)) = self.xnode.get(&l.id().unwrap()) {
                if lx == x && ly == y {
                    return Some(l);
                }
            }
            self.obligations.push(Obligation { x, y, t: l, parts: vec![(l, false)] });
            return Some(l);
        }
        if lv.neg() == tc {
            let t = self.neg(l);
            self.obligations.push(Obligation { x, y, t, parts: vec![(l, true)] });
            return Some(t);
        }
        if lv.add(lv) == tc {
            let t = self.add(l, l);
            self.obligations.push(Obligation { x, y, t, parts: vec![(l, false), (l, false)] });
            return Some(t);
        }
        let w = tc.sub(lv);
        if let Some(&m) = idx.get(&w.0) {
            let t = self.add(l, m);
            self.obligations.push(Obligation { x, y, t, parts: vec![(l, false), (m, false)] });
            return Some(t);
        }
        if let Some(&m) = idx.get(&w.neg().0) {
            let t = self.sub(l, m);
            self.obligations.push(Obligation { x, y, t, parts: vec![(l, false), (m, true)] });
            return Some(t);
        }
        if let Some(&m) = idx.get(&tc.add(lv).0) {
            let t = self.sub(m, l);
            self.obligations.push(Obligation { x, y, t, parts: vec![(m, false), (l, true)] });
            return Some(t);
        }
        // constant + leaf (one operand of the addition was a constant point)
        if self.konst_points.contains(&w.0) || self.konst_points.contains(&w.neg().0) {
            let t = self.add(l, V::konst(w));
            self.obligations.push(Obligation { x, y, t, parts: vec![(l, false), (V::konst(w), false)] });
            return Some(t);
        }
        None
    }
    /// Group element from affine coordinates computed by the code under test.
    pub fn from_xy(&mut self, x: V, y: V) -> V {
        let (xc, yc) = (self.val(x), self.val(y));
        if xc.is_zero() && yc.is_zero() {
            return V::ZERO;
        }
        if yc.is_zero() {
            self.notes.push("raw point off the curve".into());
            return self.var(&format!("offcurve#{}", self.notes.len()));
        }
        let tc = xc.mul(yc.inv());
        let ti = tc.inv();
        if ti.mul(ti) != xc || ti.mul(ti).mul(ti) != yc {
            // off the curve: a fresh unknown, recorded
            self.notes.push("raw point off the curve".into());
            let name = format!("offcurve#{}", self.notes.len());
            return self.var(&name);
        }
        if x.as_const().is_some() && y.as_const().is_some() {
            return V::konst(tc);
        }
        // Breadth first over the expressions of x and y: the discrete logs whose coordinates occur
        // there are the candidates; the operands of an addition are met early.
        let mut idx: HashMap<[u64; 4], V> = HashMap::new();
        let mut stack: std::collections::VecDeque<u32> = [x, y].iter().filter_map(|v| v.id()).collect();
        let mut seen = std::collections::HashSet::new();
        while let Some(n) = stack.pop_front() {
            if !seen.insert(n) || seen.len() > 200_000 {
                continue;
            }
            let nd = self.nodes[n as usize];
            match nd.op {
                Op::Var => {}
                Op::X | Op::Y => {
                    let l = V::sym(nd.a);
                    let lv = self.val(l);
                    if idx.insert(lv.0, l).is_none() {
                        if let Some(t) = self.combine_leaf(x, y, tc, l, lv, &idx) {
                            return t;
                        }
                    }
                }
                Op::Add | Op::Sub | Op::Mul => {
                    for r in [nd.a, nd.b] {
                        if r & CBIT == 0 {
                            stack.push_back(r);
                        }
                    }
                }
                Op::Neg | Op::Inv => {
                    if nd.a & CBIT == 0 {
                        stack.push_back(nd.a)
                    }
                }
            }
        }
        self.notes.push("raw point with unrecognised discrete log".into());
        let name = format!("unknownpoint#{}", self.notes.len());
        self.assign.insert(name.clone(), tc);
        self.var(&name)
    }
    fn register<const N: usize>(&mut self, which: fn(&mut Arena) -> &mut HashMap<[u8; N], V>, bytes: [u8; N], v: V) {
        let prev = which(self).get(&bytes).copied();
        match prev {
            Some(p) => self.collide(p, v),
            None => {
                which(self).insert(bytes, v);
            }
        }
    }
    fn special(&mut self, v: V) -> bool {
        // values whose encodings coincide with constants the code itself may write
        let c = self.val(v);
        if c.is_zero() || c == Fr::ONE || c == Fr::ONE.neg() {
            let d = self.sub(v, V::konst(c));
            if d.id().is_some() {
                self.events.push(Event { kind: Kind::Collide, node: d, zero: true });
            }
            return true;
        }
        false
    }
    pub fn scalar_be(&mut self, v: V) -> [u8; 32] {
        let b = self.val(v).to_be();
        if let Some(id) = v.id() {
            if !self.special(v) {
                let prev = self.scalar_bytes.get(&b).copied();
                match prev {
                    Some(p) => self.collide(V::sym(p), v),
                    None => {
                        self.scalar_bytes.insert(b, id);
                    }
                }
            }
        }
        b
    }
    pub fn scalar_from_be(&mut self, b: &[u8; 32]) -> Option<V> {
        if let Some(&id) = self.scalar_bytes.get(b) {
            return Some(V::sym(id));
        }
        Fr::from_be(b).map(V::konst)
    }
    /// Reduction of 32 big-endian bytes modulo r (digest provenance first).
    pub fn scalar_from_be_reduce(&mut self, b: &[u8; 32]) -> V {
        if let Some(&v) = self.digest_bytes.get(b) {
            return v;
        }
        if let Some(&id) = self.scalar_bytes.get(b) {
            return V::sym(id);
        }
        V::konst(Fr::from_be_reduce(b))
    }
    pub fn hash(&mut self, transcript: Vec<u8>, digest: [u8; 32]) {
        for h in &self.hashes {
            if h.digest == digest {
                return;
            }
        }
        let name = format!("H{}", self.hashes.len());
        if !self.assign.contains_key(&name) {
            self.assign.insert(name.clone(), Fr::from_be_reduce(&digest));
        }
        let var = self.var(&name);
        self.digest_bytes.insert(digest, var);
        self.hashes.push(HashCall { transcript, digest, var });
    }
    pub fn g1_enc(&mut self, t: V, torsion: u64) -> [u8; 48] {
        let b = g1_bytes_of(self.val(t), torsion);
        if t.id().is_some() && torsion == 0 && !self.special(t) {
            self.register(|a| &mut a.g1_bytes, b, t);
        }
        b
    }
    pub fn g1_dec(&mut self, b: &[u8; 48]) -> Decoded {
        if let Some(&t) = self.g1_bytes.get(b) {
            return Decoded::Point(t, 0);
        }
        dec_point(&b[..])
    }
    pub fn g2_enc(&mut self, t: V, torsion: u64) -> [u8; 96] {
        let mut b = [0u8; 96];
        b[..48].copy_from_slice(&g1_bytes_of(self.val(t), torsion));
        if t.id().is_some() && torsion == 0 && !self.special(t) {
            self.register(|a| &mut a.g2_bytes, b, t);
        }
        b
    }
    pub fn g2_dec(&mut self, b: &[u8; 96]) -> Decoded {
        if let Some(&t) = self.g2_bytes.get(b) {
            return Decoded::Point(t, 0);
        }
        if b[48..].iter().any(|x| *x != 0) {
            // an encoding that was not produced by this model: an opaque subgroup element
            let mut s = String::new();
            for x in b.iter() {
                s.push_str(&format!("{:02x}", x));
            }
            return Decoded::Point(V::konst(Fr::prf(&s, 7)), 0);
        }
        dec_point(&b[..48])
    }
}

/// Encoding of a (model) G1 element: flag byte, tag bytes, discrete log.  The identity is
/// encoded as in the real library (0xc0 00..00).
pub fn g1_bytes_of(t: Fr, torsion: u64) -> [u8; 48] {
    let mut b = [0u8; 48];
    if t.is_zero() && torsion == 0 {
        b[0] = 0xc0;
        return b;
    }
    // P and -P differ in the sign flag alone
    let n = t.neg();
    let (t, torsion) = if n.to_be() < t.to_be() || t.is_zero() && torsion == 2 {
        b[0] = 0xa0;
        (n, if torsion == 3 { 3 } else { (3 - torsion) % 3 })
    } else {
        b[0] = 0x80;
        (t, torsion)
    };
    b[1] = if torsion == 0 { 0x01 } else { 0xe0 + torsion as u8 };
    b[2..16].copy_from_slice(b"model-point-g1");
    b[16..].copy_from_slice(&t.to_be());
    b
}

/// Encodings of the model: tag 0x01 = subgroup point, 0xe1..0xe3 = on the curve but outside the
/// subgroup (torsion part of order three in two classes, or any); every other byte string that carries the model tag is malformed.  Byte strings
/// without the tag (e.g. the embedded setup) stand for opaque subgroup elements.
fn dec_point(b: &[u8]) -> Decoded {
    if b[0] == 0xc0 {
        return if b[1..].iter().all(|x| *x == 0) { Decoded::Point(V::ZERO, 0) } else { Decoded::Invalid };
    }
    if b[0] & 0x80 == 0 || b[0] & 0x40 != 0 {
        return Decoded::Invalid;
    }
    if &b[2..16] == b"model-point-g1" {
        let mut s = [0u8; 32];
        s.copy_from_slice(&b[16..48]);
        let minus = b[0] == 0xa0;
        if !minus && b[0] != 0x80 {
            return Decoded::Invalid;
        }
        let Some(f) = Fr::from_be(&s).filter(|f| f.neg().to_be() >= s) else { return Decoded::Invalid };
        let f = if minus { f.neg() } else { f };
        return match b[1] {
            0x01 if !f.is_zero() => Decoded::Point(V::konst(f), 0),
            0xe1..=0xe3 => {
                let t = (b[1] - 0xe0) as u64;
                Decoded::Point(V::konst(f), if minus && t != 3 { 3 - t } else { t })
            }
            _ => Decoded::Invalid,
        };
    }
    if b[1] == 0xff && b[2] == 0xff {
        return Decoded::Invalid;
    }
    let mut s = String::new();
    for x in b.iter() {
        s.push_str(&format!("{:02x}", x));
    }
    Decoded::Point(V::konst(Fr::prf(&s, 7)), 0)
}

// ---- global session API -------------------------------------------------------------

/// Start a run: fresh arena, given assignment for the variables.
pub fn begin(assign: HashMap<String, Fr>, seed: u64) {
    let mut g = lock();
    *g = Some(Arena { assign, seed, ..Default::default() });
}
/// End the run and take the trace.
pub fn end() -> Arena {
    lock().take().unwrap_or_default()
}
pub fn with_arena<T>(f: impl FnOnce(&mut Arena) -> T) -> T {
    with(f)
}
pub fn var(name: &str) -> V {
    with(|a| a.var(name))
}
pub fn num_events() -> usize {
    with(|a| a.events.len())
}
pub fn val(v: V) -> Fr {
    match v.as_const() {
        Some(c) => c,
        None => with(|a| a.val(v)),
    }
}
macro_rules! bin {
    ($n:ident) => {
        #[inline]
        pub fn $n(a: V, b: V) -> V {
            if let (Some(x), Some(y)) = (a.as_const(), b.as_const()) {
                return V::konst(x.$n(y));
            }
            with(|z| z.$n(a, b))
        }
    };
}
bin!(add);
bin!(sub);
bin!(mul);
pub fn neg(a: V) -> V {
    match a.as_const() {
        Some(x) => V::konst(x.neg()),
        None => with(|z| z.neg(a)),
    }
}
pub fn inv(a: V) -> V {
    match a.as_const() {
        Some(x) => V::konst(x.inv()),
        None => with(|z| z.inv(a)),
    }
}
pub fn is_zero(kind: Kind, a: V) -> bool {
    match a.as_const() {
        Some(x) => x.is_zero(),
        None => with(|z| z.is_zero(kind, a)),
    }
}
pub fn eq(kind: Kind, a: V, b: V) -> bool {
    match (a.as_const(), b.as_const()) {
        (Some(x), Some(y)) => x == y,
        _ => with(|z| z.eq(kind, a, b)),
    }
}
/// The code under test used the integer representative of `a`.
pub fn concretize(a: V) -> Fr {
    match a.as_const() {
        Some(x) => x,
        None => with(|z| {
            let c = z.val(a);
            let d = z.sub(a, V::konst(c));
            z.events.push(Event { kind: Kind::Concretize, node: d, zero: true });
            c
        }),
    }
}
