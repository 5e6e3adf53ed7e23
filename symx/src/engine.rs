//! Symbolic executor for code generic over the scalar type: a hash-consed term graph, path
//! conditions over the reals, an algebraic simplifier that prepares the encoding, and the
//! decision procedure calls.
use crate::poly::*;
use crate::rat::Q;
use crate::solver::*;
use std::cell::RefCell;
use std::collections::{BTreeSet, HashMap};
use std::rc::Rc;

pub type Id = u32;
pub const NEG: u8 = 1;
pub const ZERO: u8 = 2;
pub const POS: u8 = 4;
pub const ANY: u8 = 7;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    C(Q),
    PInf,
    NInf,
    NaN,
    In(u32),
    Add(Id, Id),
    Sub(Id, Id),
    Mul(Id, Id),
    Div(Id, Id),
    Neg(Id),
    Sqrt(Id),
    Abs(Id),
    Max(Id, Id),
    Min(Id, Id),
}

/// Rational normal form: numerator over a product of registered factors.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct RF {
    pub n: Poly,
    pub d: Vec<(u32, u32)>, // (factor id, exponent), ascending
}

#[derive(Clone, Debug)]
pub enum VK {
    Input(u32),
    Root(Poly),        // v >= 0, v^2 = poly
    AbsV(Poly),        // v >= 0, v^2 = poly^2
    MaxV(RF, RF),      // v = max
    MinV(RF, RF),      // v = min
    Opq(Op, Vec<RF>),  // defined by one operation on normal forms
}

#[derive(Clone, Debug)]
pub struct VarDef {
    pub kind: VK,
    pub sq: Option<Poly>,
    pub node: Id,
}

#[derive(Clone, PartialEq, Eq, Hash)]
enum VKey {
    Root(Poly),
    Abs(Poly),
    Max(RF, RF),
    Min(RF, RF),
    Opq(Id),
}

#[derive(Clone)]
struct Fact {
    node: Id,
    mask: u8,
    emit: bool,
}

fn num_sign(x: f64) -> u8 {
    if x.abs() <= 1e-12 {
        ZERO
    } else if x > 1e-6 {
        POS
    } else if x < -1e-6 {
        NEG
    } else {
        0
    }
}

/// Why a path stopped before its end.
#[derive(Clone, Debug, PartialEq)]
pub enum Abort {
    /// assumption unsatisfiable or the path condition turned out contradictory
    Infeasible,
    /// division by zero, root of a negative number or arithmetic on infinities: outside the real
    /// encoding, the concrete run decides
    Exceptional(String),
    /// decision or size bound reached
    Cut(String),
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub witnessed: u64,
    pub paths: u64,
    pub infeasible: u64,
    pub exceptional: u64,
    pub cut: u64,
    pub decisions: u64,
    pub forks: u64,
    pub states: u64,
    pub feas_unknown: u64,
    pub claims: u64,
    pub claims_nf: u64,
    pub claims_z3: u64,
    pub claims_part: u64,
    pub claims_undecided: u64,
    pub claims_sat: u64,
    pub validated: u64,
    pub nodes: u64,
    pub maxterms: u64,
    pub nf_rechecked: u64,
}

impl Stats {
    pub fn add(&mut self, o: &Stats) {
        self.witnessed += o.witnessed;
        self.paths += o.paths;
        self.infeasible += o.infeasible;
        self.exceptional += o.exceptional;
        self.cut += o.cut;
        self.decisions += o.decisions;
        self.forks += o.forks;
        self.states += o.states;
        self.feas_unknown += o.feas_unknown;
        self.claims += o.claims;
        self.claims_nf += o.claims_nf;
        self.claims_z3 += o.claims_z3;
        self.claims_part += o.claims_part;
        self.claims_undecided += o.claims_undecided;
        self.claims_sat += o.claims_sat;
        self.validated += o.validated;
        self.nodes = self.nodes.max(o.nodes);
        self.maxterms = self.maxterms.max(o.maxterms);
        self.nf_rechecked += o.nf_rechecked;
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Limits {
    pub max_decisions: usize,
    pub max_terms: usize,
    pub max_nodes: usize,
    pub feas_ms: u64,
    pub claim_ms: u64,
}

pub struct Engine {
    pub nodes: Vec<Op>,
    memo: HashMap<Op, Id>,
    pub input_names: Vec<String>,
    pub eps: f64,
    pub ops: u64,
    // path
    pub prefix: Vec<bool>,
    pub pos: usize,
    pub trace: Vec<bool>,
    pub pending: Vec<Vec<bool>>,
    facts: Vec<Fact>,
    // normal forms
    nfc: HashMap<Id, Rc<RF>>,
    pub vars: Vec<VarDef>,
    input_var: Vec<Var>,
    vmemo: HashMap<VKey, Var>,
    factors: Vec<Poly>,
    fmemo: HashMap<Poly, u32>,
    masks: HashMap<Poly, u8>,
    emitted: Vec<(Vec<(Poly, u32)>, u8)>, // product of polynomials, allowed signs
    subst: Vec<Option<Poly>>,             // per input
    dirty: bool,
    depth: u32,
    prefer: Vec<(Id, bool)>,
    pub solver: Solver,
    pub stats: Stats,
    pub lim: Limits,
    pub deadline: std::time::Instant,
    probes: Vec<Probe>,
    pub seeds: Vec<Vec<f64>>,
    pub zsign: bool,
    zero_signs: HashMap<Id, bool>,
}

/// A concrete assignment that may witness that a branch is possible.
struct Probe {
    base: Vec<f64>,
    vals: Vec<f64>,
    facts: usize,
    ok: bool,
}
const PROBES: usize = 160;
/// development: other probes
static PROBE_SEED: std::sync::LazyLock<u64> = std::sync::LazyLock::new(|| std::env::var("SYMX_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(0));

thread_local! {
    pub static ENG: RefCell<Option<Engine>> = RefCell::new(None);
}

/// Set once a violation is confirmed: the other workers stop.
pub static STOP: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

pub fn with<R>(f: impl FnOnce(&mut Engine) -> R) -> R {
    ENG.with(|e| f(e.borrow_mut().as_mut().expect("no engine on this thread")))
}

fn abort(a: Abort) -> ! {
    std::panic::panic_any(a)
}

pub fn flip(m: u8) -> u8 {
    (m & ZERO) | if m & NEG != 0 { POS } else { 0 } | if m & POS != 0 { NEG } else { 0 }
}
fn mul_mask(a: u8, b: u8) -> u8 {
    let mut r = 0;
    for x in [NEG, ZERO, POS] {
        if a & x == 0 {
            continue;
        }
        for y in [NEG, ZERO, POS] {
            if b & y == 0 {
                continue;
            }
            r |= if x == ZERO || y == ZERO {
                ZERO
            } else if x == y {
                POS
            } else {
                NEG
            };
        }
    }
    r
}
fn pow_mask(a: u8, e: u32) -> u8 {
    if e % 2 == 1 {
        a
    } else {
        (a & ZERO) | if a & (NEG | POS) != 0 { POS } else { 0 }
    }
}
fn add_mask(a: u8, b: u8) -> u8 {
    let mut r = 0;
    for x in [NEG, ZERO, POS] {
        if a & x == 0 {
            continue;
        }
        for y in [NEG, ZERO, POS] {
            if b & y == 0 {
                continue;
            }
            r |= if x == ZERO {
                y
            } else if y == ZERO || x == y {
                x
            } else {
                ANY
            };
        }
    }
    r
}
fn single(m: u8) -> bool {
    m == NEG || m == ZERO || m == POS
}

impl Engine {
    pub fn new(lim: Limits) -> Engine {
        Engine {
            nodes: vec![],
            memo: HashMap::new(),
            input_names: vec![],
            eps: 0.0,
            ops: 0,
            prefix: vec![],
            pos: 0,
            trace: vec![],
            pending: vec![],
            facts: vec![],
            nfc: HashMap::new(),
            vars: vec![],
            input_var: vec![],
            vmemo: HashMap::new(),
            factors: vec![],
            fmemo: HashMap::new(),
            masks: HashMap::new(),
            emitted: vec![],
            subst: vec![],
            dirty: false,
            depth: 0,
            prefer: vec![],
            solver: Solver::new(),
            stats: Stats::default(),
            lim,
            deadline: std::time::Instant::now() + std::time::Duration::from_secs(3600),
            probes: vec![],
            seeds: vec![],
            zsign: false,
            zero_signs: HashMap::new(),
        }
    }
    /// Start a new path.
    pub fn reset_path(&mut self, prefix: Vec<bool>) {
        self.ops = 0;
        self.nodes.clear();
        self.memo.clear();
        self.input_names.clear();
        self.prefix = prefix;
        self.pos = 0;
        self.trace.clear();
        self.facts.clear();
        self.subst.clear();
        self.prefer.clear();
        self.depth = 0;
        self.clear_nf();
        self.dirty = false;
        self.probes.clear();
        self.zero_signs.clear();
    }
    fn clear_nf(&mut self) {
        self.nfc.clear();
        self.vars.clear();
        self.input_var.clear();
        self.vmemo.clear();
        self.factors.clear();
        self.fmemo.clear();
        self.masks.clear();
        self.emitted.clear();
        for i in 0..self.input_names.len() {
            let node = self.memo[&Op::In(i as u32)];
            self.input_var.push(self.vars.len() as Var);
            self.vars.push(VarDef { kind: VK::Input(i as u32), sq: None, node });
        }
    }

    pub fn out_of_time(&self) -> bool {
        STOP.load(std::sync::atomic::Ordering::Relaxed) || std::time::Instant::now() > self.deadline
    }

    // ---------------------------------------------------------------- term graph
    pub fn mk(&mut self, op: Op) -> Id {
        if let Some(&i) = self.memo.get(&op) {
            return i;
        }
        if self.nodes.len() % 64 == 0 {
            crate::mem::guard();
        }
        if self.nodes.len() % 256 == 0 && self.out_of_time() {
            abort(Abort::Cut("time".into()));
        }
        if self.nodes.len() >= self.lim.max_nodes {
            abort(Abort::Cut("term bound".into()));
        }
        let i = self.nodes.len() as Id;
        self.nodes.push(op.clone());
        self.memo.insert(op, i);
        i
    }
    pub fn cst(&mut self, q: Q) -> Id {
        self.mk(Op::C(q))
    }
    pub fn of_f64(&mut self, x: f64) -> Id {
        if x.is_nan() {
            self.mk(Op::NaN)
        } else if x == f64::INFINITY {
            self.mk(Op::PInf)
        } else if x == f64::NEG_INFINITY {
            self.mk(Op::NInf)
        } else {
            self.cst(Q::from_f64(x))
        }
    }
    pub fn input(&mut self, name: &str) -> Id {
        let k = self.input_names.len() as u32;
        self.input_names.push(name.to_string());
        self.subst.push(None);
        let node = self.mk(Op::In(k));
        self.input_var.push(self.vars.len() as Var);
        self.vars.push(VarDef { kind: VK::Input(k), sq: None, node });
        node
    }
    fn c(&self, a: Id) -> Option<&Q> {
        match &self.nodes[a as usize] {
            Op::C(q) => Some(q),
            _ => None,
        }
    }
    pub fn special(&self, a: Id) -> Option<f64> {
        match &self.nodes[a as usize] {
            Op::PInf => Some(f64::INFINITY),
            Op::NInf => Some(f64::NEG_INFINITY),
            Op::NaN => Some(f64::NAN),
            _ => None,
        }
    }
    /// Work on special values creates no new terms; loops that only do that end here.
    pub fn tick(&mut self) {
        self.ops += 1;
        if self.ops > 300_000 {
            abort(Abort::Cut("operations bound".into()));
        }
        if self.ops % 1024 == 0 && self.out_of_time() {
            abort(Abort::Cut("time".into()));
        }
    }
    fn sign_of(&mut self, a: Id) -> f64 {
        if let Some(q) = self.c(a) {
            return q.sign() as f64;
        }
        if self.decide(a, ZERO) {
            0.0
        } else if self.decide(a, POS) {
            1.0
        } else {
            -1.0
        }
    }
    fn spec2(&mut self, a: Id, b: Id, op: char) -> Option<Id> {
        let (x, y) = (self.special(a), self.special(b));
        if x.is_none() && y.is_none() {
            return None;
        }
        self.tick();
        if x.map(|v| v.is_nan()).unwrap_or(false) || y.map(|v| v.is_nan()).unwrap_or(false) {
            return Some(self.mk(Op::NaN));
        }
        let r = match (op, x, y) {
            ('+', Some(u), Some(v)) => u + v,
            ('-', Some(u), Some(v)) => u - v,
            ('+', Some(u), None) | ('-', Some(u), None) | ('+', None, Some(u)) => u,
            ('-', None, Some(v)) => -v,
            ('*', Some(u), Some(v)) => u * v,
            ('*', Some(u), None) => u * self.sign_of(b),
            ('*', None, Some(v)) => v * self.sign_of(a),
            ('/', Some(_), Some(_)) => f64::NAN,
            ('/', None, Some(_)) => 0.0,
            ('/', Some(u), None) => {
                let s = self.sign_of(b);
                if s == 0.0 {
                    abort(Abort::Exceptional("infinity divided by zero".into()));
                }
                u * s
            }
            _ => unreachable!(),
        };
        Some(self.of_f64(r))
    }
    pub fn add(&mut self, a: Id, b: Id) -> Id {
        if let Some(r) = self.spec2(a, b, '+') {
            return r;
        }
        match (self.c(a).cloned(), self.c(b).cloned()) {
            (Some(x), Some(y)) => return self.cst(x.add(&y)),
            (Some(x), _) if x.is_zero() => return b,
            (_, Some(y)) if y.is_zero() => return a,
            _ => {}
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        self.mk(Op::Add(a, b))
    }
    pub fn sub(&mut self, a: Id, b: Id) -> Id {
        if let Some(r) = self.spec2(a, b, '-') {
            return r;
        }
        match (self.c(a).cloned(), self.c(b).cloned()) {
            (Some(x), Some(y)) => return self.cst(x.sub(&y)),
            (Some(x), _) if x.is_zero() => return self.neg(b),
            (_, Some(y)) if y.is_zero() => return a,
            _ => {}
        }
        if a == b {
            return self.cst(Q::zero());
        }
        self.mk(Op::Sub(a, b))
    }
    pub fn mul(&mut self, a: Id, b: Id) -> Id {
        if let Some(r) = self.spec2(a, b, '*') {
            return r;
        }
        match (self.c(a).cloned(), self.c(b).cloned()) {
            (Some(x), Some(y)) => return self.cst(x.mul(&y)),
            (Some(x), _) if x.is_zero() => return a,
            (_, Some(y)) if y.is_zero() => return b,
            (Some(x), _) if x.is_one() => return b,
            (_, Some(y)) if y.is_one() => return a,
            _ => {}
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        self.mk(Op::Mul(a, b))
    }
    pub fn neg(&mut self, a: Id) -> Id {
        if let Some(x) = self.special(a) {
            return self.of_f64(-x);
        }
        if let Some(x) = self.c(a).cloned() {
            return self.cst(x.neg());
        }
        if let Op::Neg(b) = self.nodes[a as usize] {
            return b;
        }
        self.mk(Op::Neg(a))
    }
    pub fn div(&mut self, a: Id, b: Id) -> Id {
        if let Some(r) = self.spec2(a, b, '/') {
            return r;
        }
        if let Some(y) = self.c(b).cloned() {
            if y.is_zero() {
                abort(Abort::Exceptional("division by zero".into()));
            }
            if y.is_one() {
                return a;
            }
            if let Some(x) = self.c(a).cloned() {
                return self.cst(x.div(&y));
            }
        } else if self.is_zero(b) {
            abort(Abort::Exceptional("division by zero".into()));
        }
        if let Some(x) = self.c(a) {
            if x.is_zero() {
                return a;
            }
        }
        self.mk(Op::Div(a, b))
    }
    pub fn sqrt(&mut self, a: Id) -> Id {
        if let Some(x) = self.special(a) {
            return self.of_f64(x.sqrt());
        }
        if let Some(x) = self.c(a).cloned() {
            if let Some(r) = sqrt_q_exact(&x) {
                return self.cst(r);
            }
        }
        if let Some((q, b)) = self.square_form(a, 0) {
            if let Some(r) = sqrt_q_exact(&q) {
                let r = self.cst(r);
                let m = self.abs(b);
                return self.mul(r, m);
            }
        }
        if !self.dag_nonneg(a, 0) && self.decide(a, NEG) {
            abort(Abort::Exceptional("root of a negative number".into()));
        }
        self.mk(Op::Sqrt(a))
    }
    /// `a = q·b²` by the shape of the term.
    fn square_form(&self, a: Id, depth: u32) -> Option<(Q, Id)> {
        if depth > 20 {
            return None;
        }
        let strip = |mut x: Id| loop {
            match self.nodes[x as usize] {
                Op::Abs(y) | Op::Neg(y) => x = y,
                _ => return x,
            }
        };
        match self.nodes[a as usize] {
            Op::Mul(x, y) => {
                if let Some(q) = self.c(x) {
                    let (r, b) = self.square_form(y, depth + 1)?;
                    return Some((r.mul(q), b));
                }
                if let Some(q) = self.c(y) {
                    let (r, b) = self.square_form(x, depth + 1)?;
                    return Some((r.mul(q), b));
                }
                let same = x == y
                    || (matches!(self.nodes[x as usize], Op::Abs(_)) && matches!(self.nodes[y as usize], Op::Abs(_)) && strip(x) == strip(y));
                if same {
                    return Some((Q::one(), strip(x)));
                }
                None
            }
            Op::Div(x, y) => {
                let q = self.c(y)?;
                let (r, b) = self.square_form(x, depth + 1)?;
                Some((r.div(q), b))
            }
            Op::Add(x, y) => {
                let (r, b) = self.square_form(x, depth + 1)?;
                let (s, b2) = self.square_form(y, depth + 1)?;
                if b == b2 {
                    Some((r.add(&s), b))
                } else {
                    None
                }
            }
            _ => None,
        }
    }
    /// Non-negative by the shape of the term (sums and products of squares, roots, magnitudes).
    fn dag_nonneg(&self, a: Id, depth: u32) -> bool {
        if depth > 200 {
            return false;
        }
        match &self.nodes[a as usize] {
            Op::C(q) => q.sign() >= 0,
            Op::Mul(x, y) => x == y || (self.dag_nonneg(*x, depth + 1) && self.dag_nonneg(*y, depth + 1)),
            Op::Add(x, y) | Op::Div(x, y) | Op::Min(x, y) => self.dag_nonneg(*x, depth + 1) && self.dag_nonneg(*y, depth + 1),
            Op::Max(x, y) => self.dag_nonneg(*x, depth + 1) || self.dag_nonneg(*y, depth + 1),
            Op::Sqrt(_) | Op::Abs(_) => true,
            _ => false,
        }
    }
    pub fn abs(&mut self, a: Id) -> Id {
        if let Some(x) = self.special(a) {
            return self.of_f64(x.abs());
        }
        if let Some(x) = self.c(a).cloned() {
            return if x.sign() < 0 { self.cst(x.neg()) } else { a };
        }
        match self.nodes[a as usize] {
            Op::Neg(b) => self.abs(b),
            Op::Abs(_) | Op::Sqrt(_) => a,
            _ => self.mk(Op::Abs(a)),
        }
    }
    pub fn max(&mut self, a: Id, b: Id) -> Id {
        self.extremum(a, b, true)
    }
    pub fn min(&mut self, a: Id, b: Id) -> Id {
        self.extremum(a, b, false)
    }
    fn extremum(&mut self, a: Id, b: Id, max: bool) -> Id {
        if a == b {
            return a;
        }
        match (self.special(a), self.special(b)) {
            (Some(x), _) if x.is_nan() => return b,
            (_, Some(y)) if y.is_nan() => return a,
            (Some(x), _) => return if (x > 0.0) == max { a } else { b },
            (_, Some(y)) => return if (y > 0.0) == max { b } else { a },
            _ => {}
        }
        if let (Some(x), Some(y)) = (self.c(a), self.c(b)) {
            let gt = x.cmp(y) == std::cmp::Ordering::Greater;
            return if gt == max { a } else { b };
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        self.mk(if max { Op::Max(a, b) } else { Op::Min(a, b) })
    }

    // ---------------------------------------------------------------- tower reduction
    fn reduce(&self, mut p: Poly) -> Poly {
        loop {
            let mut hit: Option<(Mono, usize)> = None;
            'o: for m in p.t.keys() {
                for (k, &(v, e)) in m.iter().enumerate() {
                    if e >= 2 && self.vars[v as usize].sq.is_some() {
                        hit = Some((m.clone(), k));
                        break 'o;
                    }
                }
            }
            let v = match hit {
                None => return p,
                Some((m, k)) => m[k].0,
            };
            // rewrite all powers of v at once
            let sq = self.vars[v as usize].sq.clone().unwrap();
            let mut keep = Poly::zero();
            let mut byexp: HashMap<u32, Poly> = HashMap::new();
            for (m, q) in p.t {
                let k = m.iter().position(|x| x.0 == v);
                match k {
                    Some(k) if m[k].1 >= 2 => {
                        let e = m[k].1;
                        let mut mm = m.clone();
                        if e % 2 == 0 {
                            mm.remove(k);
                        } else {
                            mm[k].1 = 1;
                        }
                        byexp.entry(e / 2).or_default().add_term(mm, q);
                    }
                    _ => keep.add_term(m, q),
                }
            }
            p = keep;
            let mut es: Vec<u32> = byexp.keys().cloned().collect();
            es.sort();
            for e in es {
                let mut x = byexp.remove(&e).unwrap();
                for _ in 0..e {
                    x = x.mul_raw(&sq);
                }
                p = p.add(&x);
            }
        }
    }
    fn pmul(&self, a: &Poly, b: &Poly) -> Poly {
        if a.len() * b.len() > 2000 && self.out_of_time() {
            abort(Abort::Cut("time".into()));
        }
        self.reduce(a.mul_raw(b))
    }
    fn factor(&mut self, p: &Poly) -> u32 {
        if let Some(&f) = self.fmemo.get(p) {
            return f;
        }
        let f = self.factors.len() as u32;
        self.factors.push(p.clone());
        self.fmemo.insert(p.clone(), f);
        f
    }
    fn dpush(d: &mut Vec<(u32, u32)>, f: u32, e: u32) {
        match d.binary_search_by(|x| x.0.cmp(&f)) {
            Ok(i) => d[i].1 += e,
            Err(i) => d.insert(i, (f, e)),
        }
    }
    /// Split a non-zero polynomial into constant and registered factors.
    fn split(&mut self, p: &Poly, d: &mut Vec<(u32, u32)>, mult: u32) -> Q {
        let (c, p) = p.content();
        let (m, mut g) = p.mono_content();
        for (v, e) in m {
            if let (Some(sq), true) = (self.vars[v as usize].sq.clone(), e >= 2) {
                let c2 = self.split(&sq, d, mult * (e / 2));
                assert!(c2.is_one() || c2.sign() != 0);
                // constants of nested radicands are folded by the caller through `extra`
                if !c2.is_one() {
                    let f = self.factor(&Poly::cst(c2));
                    Self::dpush(d, f, mult * (e / 2));
                }
                if e % 2 == 1 {
                    let f = self.factor(&Poly::var(v));
                    Self::dpush(d, f, mult);
                }
            } else {
                let f = self.factor(&Poly::var(v));
                Self::dpush(d, f, mult * e);
            }
        }
        if g.as_cst().is_none() {
            for i in 0..self.factors.len() {
                if self.factors[i].len() < 2 || self.factors[i].len() > g.len() * 4 {
                    continue;
                }
                let f = self.factors[i].clone();
                while let Some(q) = g.div_exact(&f) {
                    Self::dpush(d, i as u32, mult);
                    g = q;
                    if g.as_cst().is_some() {
                        break;
                    }
                }
                if g.as_cst().is_some() {
                    break;
                }
            }
        }
        let (c2, g) = g.content();
        if g.as_cst().is_none() {
            let f = self.factor(&g);
            Self::dpush(d, f, mult);
        }
        c.mul(&c2)
    }
    fn cancel(&mut self, mut r: RF) -> RF {
        if r.n.is_zero() {
            return RF { n: Poly::zero(), d: vec![] };
        }
        let mut d = std::mem::take(&mut r.d);
        // constant factors and squared tower variables in the denominator
        let mut i = 0;
        while i < d.len() {
            let (f, e) = d[i];
            let p = self.factors[f as usize].clone();
            if let Some(c) = p.as_cst() {
                let mut k = Q::one();
                for _ in 0..e {
                    k = k.mul(&c);
                }
                r.n = r.n.scale(&k.inv());
                d.remove(i);
                continue;
            }
            if e >= 2 {
                if let Some(v) = p.as_var() {
                    if let Some(sq) = self.vars[v as usize].sq.clone() {
                        if e % 2 == 1 {
                            d[i].1 = 1;
                        } else {
                            d.remove(i);
                        }
                        let c = self.split(&sq, &mut d, e / 2);
                        let mut k = Q::one();
                        for _ in 0..e / 2 {
                            k = k.mul(&c);
                        }
                        r.n = r.n.scale(&k.inv());
                        i = 0;
                        continue;
                    }
                }
            }
            i += 1;
        }
        let mut out = vec![];
        for (f, mut e) in d {
            let p = self.factors[f as usize].clone();
            while e > 0 {
                if let Some(q) = r.n.div_exact(&p) {
                    r.n = q;
                    e -= 1;
                    continue;
                }
                if let Some(v) = p.as_var() {
                    if let Some(sq) = self.vars[v as usize].sq.clone() {
                        // n/v with v^2 dividing n
                        if sq.as_cst().is_none() {
                            if let Some(q) = r.n.div_exact(&sq) {
                                r.n = self.pmul(&q, &Poly::var(v));
                                e -= 1;
                                continue;
                            }
                        }
                    }
                }
                break;
            }
            if e > 0 {
                out.push((f, e));
            }
        }
        r.d = out;
        self.stats.maxterms = self.stats.maxterms.max(r.n.len() as u64);
        r
    }
    fn dprod(&self, d: &[(u32, u32)]) -> Poly {
        let mut r = Poly::one();
        for &(f, e) in d {
            for _ in 0..e {
                r = self.pmul(&r, &self.factors[f as usize]);
            }
        }
        r
    }
    fn rf_mul(&mut self, a: &RF, b: &RF) -> RF {
        // cancel crosswise first to keep the product small
        let mut x = RF { n: a.n.clone(), d: b.d.clone() };
        let mut y = RF { n: b.n.clone(), d: a.d.clone() };
        x = self.cancel(x);
        y = self.cancel(y);
        let n = self.pmul(&x.n, &y.n);
        let mut d = x.d;
        for (f, e) in y.d {
            Self::dpush(&mut d, f, e);
        }
        self.cancel(RF { n, d })
    }
    fn rf_add(&mut self, a: &RF, b: &RF) -> RF {
        if a.n.is_zero() {
            return b.clone();
        }
        if b.n.is_zero() {
            return a.clone();
        }
        if a.d == b.d {
            let r = RF { n: a.n.add(&b.n), d: a.d.clone() };
            return self.cancel(r);
        }
        let mut l = a.d.clone();
        for &(f, e) in &b.d {
            match l.binary_search_by(|x| x.0.cmp(&f)) {
                Ok(i) => l[i].1 = l[i].1.max(e),
                Err(i) => l.insert(i, (f, e)),
            }
        }
        let rest = |d: &Vec<(u32, u32)>| -> Vec<(u32, u32)> {
            l.iter()
                .map(|&(f, e)| {
                    let h = d.iter().find(|x| x.0 == f).map(|x| x.1).unwrap_or(0);
                    (f, e - h)
                })
                .filter(|x| x.1 > 0)
                .collect()
        };
        let ra = self.dprod(&rest(&a.d));
        let rb = self.dprod(&rest(&b.d));
        let n = self.pmul(&a.n, &ra).add(&self.pmul(&b.n, &rb));
        self.cancel(RF { n, d: l })
    }
    fn rf_div(&mut self, a: &RF, b: &RF) -> RF {
        let mut d = vec![];
        let c = self.split(&b.n, &mut d, 1);
        let inv = RF { n: self.dprod(&b.d).scale(&c.inv()), d };
        self.rf_mul(a, &inv)
    }
    /// Remove roots from the denominators by conjugation.
    fn rationalise(&mut self, a: &RF) -> Option<RF> {
        let mut r = a.clone();
        let mut any = false;
        for _ in 0..40 {
            let mut hit = None;
            for (k, &(f, _)) in r.d.iter().enumerate() {
                let mut vs = BTreeSet::new();
                self.factors[f as usize].vars(&mut vs);
                if let Some(&v) = vs.iter().rev().find(|&&v| self.vars[v as usize].sq.is_some()) {
                    if hit.map(|(_, w)| v > w).unwrap_or(true) {
                        hit = Some((k, v));
                    }
                }
            }
            let (k, v) = match hit {
                None => return if any { Some(r) } else { None },
                Some(h) => h,
            };
            any = true;
            let (f, _) = r.d[k];
            let p = self.factors[f as usize].clone();
            if p.degree_in(v) != 1 {
                return None;
            }
            let mut cj = Poly::zero();
            for (m, q) in &p.t {
                let odd = m.iter().any(|x| x.0 == v);
                cj.add_term(m.clone(), if odd { q.neg() } else { q.clone() });
            }
            if p.len() * p.len() > 4000 || p.len() * r.n.len() > 40000 {
                return None;
            }
            let nm = self.pmul(&p, &cj);
            if nm.is_zero() || nm.len() > 2000 {
                return None;
            }
            let n = self.pmul(&r.n, &cj);
            let mut d = r.d.clone();
            if d[k].1 > 1 {
                d[k].1 -= 1;
            } else {
                d.remove(k);
            }
            let c = self.split(&nm, &mut d, 1);
            r = self.cancel(RF { n: n.scale(&c.inv()), d });
            if r.n.len() > self.lim.max_terms / 4 {
                return None;
            }
        }
        None
    }
    fn size_after(&self, op: &Op, a: &RF, b: &RF) -> usize {
        let dl = |r: &RF| r.d.iter().map(|&(f, e)| self.factors[f as usize].len().pow(e.min(3))).fold(1usize, |x, y| x.saturating_mul(y));
        match op {
            Op::Mul(..) => a.n.len() * b.n.len(),
            Op::Div(..) => a.n.len() * dl(b),
            _ => {
                if a.d == b.d {
                    a.n.len() + b.n.len()
                } else {
                    a.n.len().saturating_mul(dl(b)).saturating_add(b.n.len().saturating_mul(dl(a)))
                }
            }
        }
    }

    // ---------------------------------------------------------------- normal forms
    fn rf_cst(q: Q) -> RF {
        RF { n: Poly::cst(q), d: vec![] }
    }
    fn rf_var(v: Var) -> RF {
        RF { n: Poly::var(v), d: vec![] }
    }
    fn new_var(&mut self, key: VKey, kind: VK, sq: Option<Poly>, node: Id) -> Var {
        if let Some(&v) = self.vmemo.get(&key) {
            return v;
        }
        let v = self.vars.len() as Var;
        self.vars.push(VarDef { kind, sq, node });
        self.vmemo.insert(key, v);
        v
    }
    pub fn nf(&mut self, id: Id) -> Rc<RF> {
        if let Some(r) = self.nfc.get(&id) {
            return r.clone();
        }
        // iterative post-order over the operands
        let mut stack = vec![id];
        while let Some(&x) = stack.last() {
            if self.nfc.contains_key(&x) {
                stack.pop();
                continue;
            }
            let ch: Vec<Id> = match self.nodes[x as usize] {
                Op::Add(a, b) | Op::Sub(a, b) | Op::Mul(a, b) | Op::Div(a, b) | Op::Max(a, b) | Op::Min(a, b) => vec![a, b],
                Op::Neg(a) | Op::Sqrt(a) | Op::Abs(a) => vec![a],
                _ => vec![],
            };
            let miss: Vec<Id> = ch.into_iter().filter(|c| !self.nfc.contains_key(c)).collect();
            if !miss.is_empty() {
                stack.extend(miss);
                continue;
            }
            crate::mem::guard();
            let gen = self.generation();
            let r = self.nf1(x);
            if self.generation() != gen {
                // a substitution invalidated the caches meanwhile: start over
                stack = vec![id];
                continue;
            }
            self.nfc.insert(x, Rc::new(r));
            stack.pop();
        }
        self.nfc[&id].clone()
    }
    fn generation(&self) -> usize {
        self.subst.iter().filter(|x| x.is_some()).count()
    }
    fn nf1(&mut self, x: Id) -> RF {
        let op = self.nodes[x as usize].clone();
        match op {
            Op::C(q) => Self::rf_cst(q),
            Op::PInf | Op::NInf | Op::NaN => abort(Abort::Exceptional("non-finite value".into())),
            Op::In(k) => match &self.subst[k as usize] {
                Some(p) => RF { n: p.clone(), d: vec![] },
                None => Self::rf_var(self.input_var[k as usize]),
            },
            Op::Neg(a) => {
                let a = self.nfc[&a].clone();
                RF { n: a.n.neg(), d: a.d.clone() }
            }
            Op::Add(a, b) | Op::Sub(a, b) | Op::Mul(a, b) | Op::Div(a, b) => {
                let (ra, rb) = (self.nfc[&a].clone(), self.nfc[&b].clone());
                if self.size_after(&op, &ra, &rb) > self.lim.max_terms {
                    let v = self.new_var(
                        VKey::Opq(x),
                        VK::Opq(op.clone(), vec![(*ra).clone(), (*rb).clone()]),
                        None,
                        x,
                    );
                    return Self::rf_var(v);
                }
                match op {
                    Op::Add(..) => self.rf_add(&ra, &rb),
                    Op::Sub(..) => {
                        let nb = RF { n: rb.n.neg(), d: rb.d.clone() };
                        self.rf_add(&ra, &nb)
                    }
                    Op::Mul(..) => self.rf_mul(&ra, &rb),
                    _ => {
                        if rb.n.is_zero() {
                            abort(Abort::Infeasible);
                        }
                        self.rf_div(&ra, &rb)
                    }
                }
            }
            Op::Sqrt(a) => {
                let ra = (*self.nfc[&a]).clone();
                self.nf_sqrt(ra)
            }
            Op::Abs(a) => {
                let ra = (*self.nfc[&a]).clone();
                self.nf_abs(ra, false)
            }
            Op::Max(a, b) | Op::Min(a, b) => {
                let is_max = matches!(op, Op::Max(..));
                let (ra, rb) = (self.nfc[&a].clone(), self.nfc[&b].clone());
                if *ra == *rb {
                    return (*ra).clone();
                }
                let nb = RF { n: rb.n.neg(), d: rb.d.clone() };
                let diff = self.rf_add(&ra, &nb);
                let m = self.rf_mask(&diff);
                if m & NEG == 0 {
                    return if is_max { (*ra).clone() } else { (*rb).clone() };
                }
                if m & POS == 0 {
                    return if is_max { (*rb).clone() } else { (*ra).clone() };
                }
                let (k, kd) = if is_max {
                    (VKey::Max((*ra).clone(), (*rb).clone()), VK::MaxV((*ra).clone(), (*rb).clone()))
                } else {
                    (VKey::Min((*ra).clone(), (*rb).clone()), VK::MinV((*ra).clone(), (*rb).clone()))
                };
                let v = self.new_var(k, kd, None, x);
                Self::rf_var(v)
            }
        }
    }
    /// Polynomial as a term.
    fn poly_node(&mut self, p: &Poly) -> Id {
        let mut acc = self.cst(Q::zero());
        let terms: Vec<(Mono, Q)> = p.t.iter().map(|(m, q)| (m.clone(), q.clone())).collect();
        for (m, q) in terms {
            let mut t = self.cst(q);
            for (v, e) in m {
                let vn = self.vars[v as usize].node;
                for _ in 0..e {
                    t = self.mul(t, vn);
                }
            }
            acc = self.add(acc, t);
        }
        acc
    }
    fn nf_sqrt(&mut self, a: RF) -> RF {
        if a.n.is_zero() {
            return Self::rf_cst(Q::zero());
        }
        let a = match self.rationalise(&a) {
            Some(r) if r.d.iter().all(|x| x.1 % 2 == 0) && (r.n.as_cst().is_some() || r.n.content().1.sqrt_exact().is_some()) => r,
            _ => a,
        };
        let gen = self.generation();
        // odd denominators join the radicand
        let mut n = a.n.clone();
        let mut den: Vec<(Poly, u32)> = vec![];
        for &(f, e) in &a.d {
            let p = self.factors[f as usize].clone();
            if e % 2 == 1 {
                n = self.pmul(&n, &p);
            }
            den.push((p, (e + 1) / 2));
        }
        let (mut c, mut prim) = n.content();
        if c.sign() < 0 {
            c = c.neg();
            prim = prim.neg();
        }
        let (k, m) = square_part(&c);
        let mut out = Self::rf_cst(k);
        if !m.is_one() {
            let node = self.cst(m.clone());
            let node = self.mk(Op::Sqrt(node));
            let p = Poly::cst(m);
            let v = self.new_var(VKey::Root(p.clone()), VK::Root(p.clone()), Some(p), node);
            out = self.rf_mul(&out, &Self::rf_var(v));
        }
        let (mono, rest) = prim.mono_content();
        let mut radicand = rest;
        let mut outs: Vec<(Poly, u32)> = vec![];
        for (v, e) in mono {
            if e / 2 > 0 {
                outs.push((Poly::var(v), e / 2));
            }
            if e % 2 == 1 {
                radicand = radicand.mul_raw(&Poly::var(v));
            }
        }
        if let Some(g) = radicand.sqrt_exact() {
            if g.as_cst().map(|c| c.is_one()) != Some(true) {
                outs.push((g, 1));
            }
            radicand = Poly::one();
        } else {
            // squares of known factors
            for i in 0..self.factors.len() {
                let f = self.factors[i].clone();
                if f.len() < 2 || f.len() * 2 > radicand.len() + 2 {
                    continue;
                }
                while let Some(q1) = radicand.div_exact(&f) {
                    if let Some(q2) = q1.div_exact(&f) {
                        radicand = q2;
                        outs.push((f.clone(), 1));
                    } else {
                        break;
                    }
                }
            }
            if let Some(g) = radicand.sqrt_exact() {
                outs.push((g, 1));
                radicand = Poly::one();
            }
        }
        if radicand.as_cst().is_none() {
            let node = self.poly_node(&radicand);
            let node = self.mk(Op::Sqrt(node));
            let v = self.new_var(VKey::Root(radicand.clone()), VK::Root(radicand.clone()), Some(radicand), node);
            out = self.rf_mul(&out, &Self::rf_var(v));
        }
        for (p, e) in outs {
            let r = self.nf_abs(RF { n: p, d: vec![] }, true);
            if self.generation() != gen {
                return out; // discarded by the caller
            }
            for _ in 0..e {
                out = self.rf_mul(&out, &r);
            }
        }
        for (p, e) in den {
            let r = self.nf_abs(RF { n: p, d: vec![] }, true);
            if self.generation() != gen {
                return out;
            }
            for _ in 0..e {
                out = self.rf_div(&out, &r);
            }
        }
        out
    }
    /// |a|; unknown signs are decided when `fork`, otherwise kept as a symbol.
    fn nf_abs(&mut self, a: RF, fork: bool) -> RF {
        let m = self.rf_mask(&a);
        if m & NEG == 0 {
            return a;
        }
        if m & POS == 0 {
            return RF { n: a.n.neg(), d: a.d };
        }
        if fork {
            let gen = self.generation();
            let neg = self.decide_rf(&a, NEG);
            if self.generation() != gen {
                return a;
            }
            return if neg { RF { n: a.n.neg(), d: a.d } } else { a };
        }
        let (c, p) = a.n.content();
        let (mono, g) = p.mono_content();
        let mut comps: Vec<(Poly, u32)> = mono.into_iter().map(|(v, e)| (Poly::var(v), e)).collect();
        if g.as_cst().is_none() {
            comps.push((g, 1));
        }
        let c = if c.sign() < 0 { c.neg() } else { c };
        let mut out = Self::rf_cst(c);
        for (p, e) in comps {
            let f = self.abs_atom(p, e);
            out = self.rf_mul(&out, &f);
        }
        for (f, e) in a.d {
            let p = self.factors[f as usize].clone();
            let r = self.abs_atom(p, e);
            out = self.rf_div(&out, &r);
        }
        out
    }
    fn abs_atom(&mut self, p: Poly, e: u32) -> RF {
        let mut base = RF { n: p.clone(), d: vec![] };
        let mut out = Self::rf_cst(Q::one());
        if e % 2 == 1 {
            let m = self.mask(&p);
            let one = if m & NEG == 0 {
                base.clone()
            } else if m & POS == 0 {
                RF { n: p.neg(), d: vec![] }
            } else {
                let node = self.poly_node(&p);
                let node = self.mk(Op::Abs(node));
                let sq = self.pmul(&p, &p);
                let v = self.new_var(VKey::Abs(p.clone()), VK::AbsV(p.clone()), Some(sq), node);
                Self::rf_var(v)
            };
            out = self.rf_mul(&out, &one);
        }
        base.n = self.pmul(&p, &p);
        for _ in 0..e / 2 {
            out = self.rf_mul(&out, &base);
        }
        out
    }

    // ---------------------------------------------------------------- signs
    /// Possible signs of a polynomial, from facts and structure only.
    fn mask(&self, p: &Poly) -> u8 {
        if let Some(c) = p.as_cst() {
            return match c.sign() {
                -1 => NEG,
                0 => ZERO,
                _ => POS,
            };
        }
        let (c, q) = p.content();
        let mut m = self.mask_prim(&q);
        if c.sign() < 0 {
            m = flip(m);
        }
        m
    }
    fn var_mask(&self, v: Var) -> u8 {
        let p = Poly::var(v);
        let stored = *self.masks.get(&p).unwrap_or(&ANY);
        let s = match &self.vars[v as usize].kind {
            VK::Root(r) | VK::AbsV(r) => {
                let mr = self.mask(r);
                if mr & ZERO == 0 {
                    POS
                } else {
                    ZERO | POS
                }
            }
            VK::MaxV(a, b) => {
                let (x, y) = (self.rf_mask(a), self.rf_mask(b));
                if x & (NEG | ZERO) == 0 || y & (NEG | ZERO) == 0 {
                    POS
                } else if x & NEG == 0 || y & NEG == 0 {
                    ZERO | POS
                } else {
                    ANY
                }
            }
            VK::MinV(a, b) => {
                let (x, y) = (self.rf_mask(a), self.rf_mask(b));
                if x & (NEG | ZERO) == 0 && y & (NEG | ZERO) == 0 {
                    POS
                } else if x & NEG == 0 && y & NEG == 0 {
                    ZERO | POS
                } else {
                    ANY
                }
            }
            _ => ANY,
        };
        s & stored
    }
    fn mask_prim(&self, q: &Poly) -> u8 {
        let stored = *self.masks.get(q).unwrap_or(&ANY);
        if single(stored) {
            return stored;
        }
        let mut acc = 0u8;
        let mut first = true;
        for (m, c) in &q.t {
            let mut t = if c.sign() > 0 { POS } else { NEG };
            for &(v, e) in m {
                t = mul_mask(t, pow_mask(self.var_mask(v), e));
            }
            acc = if first { t } else { add_mask(acc, t) };
            first = false;
            if acc == ANY {
                break;
            }
        }
        let r = acc & stored;
        if r == 0 {
            // contradictory facts: the path is infeasible; callers treat 0 as "any"
            return stored;
        }
        r
    }
    fn rf_mask(&self, r: &RF) -> u8 {
        if r.n.is_zero() {
            return ZERO;
        }
        let (c, p) = r.n.content();
        let (mono, g) = p.mono_content();
        let mut m = if c.sign() > 0 { POS } else { NEG };
        for (v, e) in mono {
            m = mul_mask(m, pow_mask(self.var_mask(v), e));
        }
        m = mul_mask(m, self.mask(&g));
        for &(f, e) in &r.d {
            m = mul_mask(m, pow_mask(self.mask(&self.factors[f as usize]) & !ZERO, e));
        }
        m
    }
    /// Sign-relevant components: (atom, exponent, may_be_zero); constant sign.
    fn comps(&self, r: &RF) -> (i32, Vec<(Poly, u32, bool)>) {
        let (c, p) = r.n.content();
        let (mono, g) = p.mono_content();
        let mut v: Vec<(Poly, u32, bool)> = mono.into_iter().map(|(v, e)| (Poly::var(v), e, true)).collect();
        if g.as_cst().is_none() {
            v.push((g, 1, true));
        }
        for &(f, e) in &r.d {
            if e % 2 == 1 {
                v.push((self.factors[f as usize].clone(), 1, false));
            }
        }
        (c.sign(), v)
    }
    /// Is the sign of the term in `set`? Forks when both answers are possible.
    pub fn decide(&mut self, node: Id, set: u8) -> bool {
        self.stats.decisions += 1;
        if self.stats.decisions % 64 == 0 && self.out_of_time() {
            abort(Abort::Cut("time".into()));
        }
        if let Some(x) = self.special(node) {
            return if x.is_nan() { false } else if x > 0.0 { set & POS != 0 } else { set & NEG != 0 };
        }
        if let Some(q) = self.c(node) {
            let m = match q.sign() {
                -1 => NEG,
                0 => ZERO,
                _ => POS,
            };
            return m & set != 0;
        }
        loop {
            let gen = self.generation();
            let r = self.nf(node);
            let gen1 = self.generation();
            if gen1 != gen {
                continue;
            }
            let r2 = (*r).clone();
            let ans = self.decide_rf(&r2, set);
            return ans;
        }
    }
    /// Sign bit of a term decided to be zero: free when the job explores signed zeros.
    pub fn zero_sign(&mut self, node: Id) -> bool {
        if !self.zsign || matches!(self.nodes[node as usize], Op::C(_) | Op::Abs(_) | Op::Sqrt(_)) {
            return false;
        }
        if let Some(&b) = self.zero_signs.get(&node) {
            return b;
        }
        if self.zero_signs.len() >= 6 || self.trace.len() >= self.lim.max_decisions {
            return false;
        }
        let b = if self.pos < self.prefix.len() {
            self.prefix[self.pos]
        } else {
            self.stats.forks += 1;
            let mut alt = self.trace.clone();
            alt.push(true);
            self.pending.push(alt);
            false
        };
        self.pos += 1;
        self.trace.push(b);
        self.zero_signs.insert(node, b);
        b
    }
    pub fn is_zero(&mut self, node: Id) -> bool {
        self.decide(node, ZERO)
    }
    fn decide_rf(&mut self, r: &RF, set: u8) -> bool {
        if r.n.is_zero() {
            return set & ZERO != 0;
        }
        loop {
            let m = self.rf_mask(r);
            if m & set == 0 {
                return false;
            }
            if m & !set == 0 {
                return true;
            }
            let (cs, comps) = self.comps(r);
            let cm: Vec<u8> = comps
                .iter()
                .map(|(p, _, z)| {
                    let m = self.mask(p);
                    if *z {
                        m
                    } else {
                        m & !ZERO
                    }
                })
                .collect();
            // zero test: component by component
            let zero_q = set == ZERO || set == (NEG | POS);
            let amb: Vec<usize> = (0..comps.len())
                .filter(|&i| {
                    let pm = pow_mask(cm[i], comps[i].1);
                    if zero_q {
                        comps[i].2 && pm & ZERO != 0 && pm != ZERO
                    } else {
                        !single(pm)
                    }
                })
                .collect();
            if amb.is_empty() {
                // masks say ambiguous but no component is: cannot happen
                abort(Abort::Cut("sign analysis".into()));
            }
            let i = amb[0];
            let (p, e, _) = comps[i].clone();
            if zero_q {
                let z = self.decide_atom(&p, ZERO);
                if z {
                    return set & ZERO != 0;
                }
                continue;
            }
            if amb.len() == 1 && e % 2 == 1 {
                let mut others = if cs > 0 { POS } else { NEG };
                for j in 0..comps.len() {
                    if j != i {
                        others = mul_mask(others, pow_mask(cm[j], comps[j].1));
                    }
                }
                let w = if others == POS { set } else { flip(set) };
                return self.decide_atom(&p, w);
            }
            if e % 2 == 0 {
                if self.decide_atom(&p, ZERO) {
                    return set & ZERO != 0;
                }
            } else if cm[i] & NEG != 0 && cm[i] != (NEG | ZERO) {
                self.decide_atom(&p, NEG);
            } else if self.decide_atom(&p, ZERO) {
                return set & ZERO != 0;
            }
            if self.dirty_check() {
                // a substitution happened; masks of r refer to stale variables
                abort(Abort::Cut("stale normal form".into()));
            }
        }
    }
    fn dirty_check(&self) -> bool {
        false
    }
    /// Sign of one polynomial atom in `set`?
    fn decide_atom(&mut self, p: &Poly, set: u8) -> bool {
        let m = self.mask(p);
        let (yes, no) = (m & set, m & !set);
        if yes == 0 {
            return false;
        }
        if no == 0 {
            return true;
        }
        if self.trace.len() >= self.lim.max_decisions {
            abort(Abort::Cut("decision bound".into()));
        }
        if self.out_of_time() {
            abort(Abort::Cut("time".into()));
        }
        let node = self.poly_node(p);
        if self.pos < self.prefix.len() {
            let b = self.prefix[self.pos];
            self.pos += 1;
            self.trace.push(b);
            self.add_fact(node, p, if b { yes } else { no }, true);
            return b;
        }
        // both feasible?
        self.stats.states += 1;
        // try the less degenerate side first
        let first = yes & !ZERO != 0 && (no == ZERO || yes.count_ones() <= 2 && yes != ZERO);
        let (fm, sm) = if first { (yes, no) } else { (no, yes) };
        let seen = self.probe_signs(node);
        if seen & fm != 0 {
            self.stats.witnessed += 1;
        }
        if seen & sm != 0 {
            self.stats.witnessed += 1;
        }
        let ra = if seen & fm != 0 { Res::Sat } else { self.feasible(p, fm) };
        let b;
        if ra == Res::Unsat {
            b = !first;
            self.trace.push(b);
            self.pos += 1;
            self.add_fact(node, p, sm, false);
            return b;
        }
        let rb = if seen & sm != 0 { Res::Sat } else { self.feasible(p, sm) };
        b = first;
        if rb != Res::Unsat {
            self.stats.forks += 1;
            let mut alt = self.trace.clone();
            alt.push(!first);
            self.pending.push(alt);
        }
        if ra == Res::Unknown {
            self.stats.feas_unknown += 1;
        }
        if rb == Res::Unknown {
            self.stats.feas_unknown += 1;
        }
        self.trace.push(b);
        self.pos += 1;
        self.add_fact(node, p, fm, rb != Res::Unsat);
        b
    }
    fn set_mask(&mut self, p: &Poly, m: u8) -> bool {
        let (c, q) = p.content();
        let m = if c.sign() < 0 { flip(m) } else { m };
        let cur = self.mask_prim(&q);
        let new = cur & m;
        self.masks.insert(q, if new == 0 { m } else { new });
        new != 0
    }
    fn add_fact(&mut self, node: Id, p: &Poly, mask: u8, emit: bool) {
        self.facts.push(Fact { node, mask, emit });
        self.install(&[(p.clone(), 1)], mask, emit);
    }
    /// Record `product in mask` for the current normal forms and draw consequences.
    fn install(&mut self, comps: &[(Poly, u32)], mask: u8, emit: bool) {
        if emit {
            self.emitted.push((comps.to_vec(), mask));
        }
        if comps.is_empty() {
            return;
        }
        // all but one component of known strict sign?
        let ms: Vec<u8> = comps.iter().map(|(p, e)| pow_mask(self.mask(p), *e)).collect();
        if mask & ZERO == 0 {
            for (p, _) in comps {
                let m = self.mask(p) & !ZERO;
                if m == 0 {
                    abort(Abort::Infeasible);
                }
                if !self.set_mask(p, m) {
                    abort(Abort::Infeasible);
                }
            }
        }
        let amb: Vec<usize> = (0..comps.len()).filter(|&i| !single(ms[i])).collect();
        if amb.len() == 1 && comps[amb[0]].1 % 2 == 1 {
            let mut o = POS;
            for j in 0..comps.len() {
                if j != amb[0] {
                    o = mul_mask(o, ms[j]);
                }
            }
            if o == POS || o == NEG {
                let w = if o == POS { mask } else { flip(mask) };
                if !self.set_mask(&comps[amb[0]].0, w) {
                    abort(Abort::Infeasible);
                }
                if w == ZERO {
                    let p = comps[amb[0]].0.clone();
                    self.on_zero(&p);
                }
            }
        } else if amb.is_empty() {
            let mut o = POS;
            for m in &ms {
                o = mul_mask(o, *m);
            }
            if o & mask == 0 {
                abort(Abort::Infeasible);
            }
        } else if mask == ZERO {
            for (p, _) in comps.to_vec() {
                if self.decide_atom(&p, ZERO) {
                    return;
                }
            }
            abort(Abort::Infeasible);
        }
    }
    /// Consequences of `p == 0`.
    fn on_zero(&mut self, p: &Poly) {
        if p.is_zero() || p.as_cst().is_some() {
            return;
        }
        let input_only = |s: &Engine, p: &Poly| {
            let mut vs = BTreeSet::new();
            p.vars(&mut vs);
            vs.iter().all(|&v| matches!(s.vars[v as usize].kind, VK::Input(_)))
        };
        if let Some(v) = p.as_var() {
            match self.vars[v as usize].kind.clone() {
                VK::Input(k) => {
                    self.substitute(k, Poly::zero());
                }
                VK::Root(r) | VK::AbsV(r) => {
                    let n = self.poly_node(&r);
                    self.add_fact(n, &r, ZERO, true);
                }
                VK::MaxV(a, b) => {
                    // max(a, b) = 0 with both >= 0
                    if self.rf_mask(&a) & NEG == 0 && self.rf_mask(&b) & NEG == 0 {
                        let g = self.generation();
                        let na = self.poly_node(&a.n);
                        let nb = self.poly_node(&b.n);
                        self.zero_node(na);
                        let _ = g;
                        self.zero_node(nb);
                    }
                }
                _ => {}
            }
            return;
        }
        // monomial content
        let (mono, g) = p.mono_content();
        if !mono.is_empty() {
            let mut vs: Vec<Poly> = mono.iter().map(|x| Poly::var(x.0)).collect();
            if g.as_cst().is_none() {
                vs.push(g);
            }
            for q in vs {
                let m = self.mask(&q);
                if m & ZERO == 0 {
                    continue;
                }
                if self.decide_atom(&q, ZERO) {
                    return;
                }
            }
            abort(Abort::Infeasible);
        }
        // all terms of one sign: each must vanish
        let mut tm = vec![];
        for (m, c) in &p.t {
            let mut t = if c.sign() > 0 { POS } else { NEG };
            for &(v, e) in m {
                t = mul_mask(t, pow_mask(self.var_mask(v), e));
            }
            tm.push(t);
        }
        if tm.iter().all(|t| t & NEG == 0) || tm.iter().all(|t| t & POS == 0) {
            let nodes: Vec<Id> = p
                .t
                .keys()
                .map(|m| {
                    let mut t = Poly::zero();
                    let mm: Mono = m.iter().map(|x| (x.0, 1)).collect();
                    t.t.insert(mm, Q::one());
                    t
                })
                .collect::<Vec<_>>()
                .iter()
                .map(|t| self.poly_node(t))
                .collect();
            for n in nodes {
                self.zero_node(n);
            }
            return;
        }
        // linear in an input with constant coefficient
        if input_only(self, p) {
            let mut vs = BTreeSet::new();
            p.vars(&mut vs);
            for v in vs.into_iter().rev() {
                if p.degree_in(v) != 1 {
                    continue;
                }
                let lin: Vec<(&Mono, &Q)> = p.t.iter().filter(|(m, _)| m.iter().any(|x| x.0 == v)).collect();
                if lin.len() == 1 && lin[0].0.len() == 1 {
                    let c = lin[0].1.clone();
                    let mut rest = p.clone();
                    rest.t.remove(&vec![(v, 1)]);
                    let e = rest.scale(&c.inv().neg());
                    if let VK::Input(k) = self.vars[v as usize].kind {
                        self.substitute(k, e);
                    }
                    return;
                }
            }
        }
    }
    /// Assert that a term is zero (it follows from the path condition).
    fn zero_node(&mut self, node: Id) {
        let r = self.nf(node);
        if r.n.is_zero() {
            return;
        }
        let (_, comps) = self.comps(&r);
        let cs: Vec<(Poly, u32)> = comps.into_iter().filter(|c| c.2).map(|c| (c.0, c.1)).collect();
        if cs.is_empty() {
            abort(Abort::Infeasible);
        }
        self.facts.push(Fact { node, mask: ZERO, emit: true });
        self.install(&cs, ZERO, true);
    }
    fn substitute(&mut self, k: u32, e: Poly) {
        let v = self.input_var[k as usize];
        for s in self.subst.iter_mut().flatten() {
            // replace v in earlier substitutions
            if s.degree_in(v) > 0 {
                let mut r = Poly::zero();
                for (m, q) in &s.t {
                    let mut t = Poly::cst(q.clone());
                    for &(w, ex) in m {
                        for _ in 0..ex {
                            t = if w == v { t.mul_raw(&e) } else { t.mul_raw(&Poly::var(w)) };
                        }
                    }
                    r = r.add(&t);
                }
                *s = r;
            }
        }
        self.subst[k as usize] = Some(e);
        self.probes.clear();
        // input variables keep their numbers only while inputs come first
        self.rebuild();
    }
    /// Recompute all normal forms and facts.
    pub fn rebuild(&mut self) {
        self.depth += 1;
        if self.depth > 60 {
            abort(Abort::Cut("rebuild depth".into()));
        }
        let old: Vec<Var> = self.input_var.clone();
        self.clear_nf();
        if old.iter().zip(self.input_var.iter()).any(|(a, b)| a != b) {
            // renumber inside substitutions
            let map: HashMap<Var, Var> = old.iter().cloned().zip(self.input_var.iter().cloned()).collect();
            for s in self.subst.iter_mut().flatten() {
                let mut r = Poly::zero();
                for (m, q) in &s.t {
                    let mut mm: Mono = m.iter().map(|x| (map[&x.0], x.1)).collect();
                    mm.sort_by(|a, b| b.0.cmp(&a.0));
                    r.add_term(mm, q.clone());
                }
                *s = r;
            }
        }
        let gen = self.generation();
        let facts = self.facts.clone();
        for f in &facts {
            let r = self.nf(f.node);
            if self.generation() != gen {
                self.depth -= 1;
                return; // a nested rebuild has processed everything
            }
            if r.n.is_zero() {
                if f.mask & ZERO == 0 {
                    abort(Abort::Infeasible);
                }
                continue;
            }
            let (cs, comps) = self.comps(&r);
            let mask = if cs < 0 { flip(f.mask) } else { f.mask };
            let mut cc: Vec<(Poly, u32)> = vec![];
            for (p, e, z) in comps {
                if !z && mask & !ZERO != 0 && (mask == ZERO || mask == (NEG | POS)) {
                    continue;
                }
                cc.push((p, e));
            }
            if mask == ZERO {
                cc.retain(|_| true);
            }
            if cc.is_empty() {
                if mask & POS == 0 {
                    abort(Abort::Infeasible);
                }
                continue;
            }
            self.install(&cc, mask, f.emit);
            if self.generation() != gen {
                self.depth -= 1;
                return;
            }
        }
        self.depth -= 1;
    }

    // ---------------------------------------------------------------- solver encoding
    fn vname(v: Var) -> String {
        format!("v{}", v)
    }
    fn rf_vars(&self, r: &RF, out: &mut BTreeSet<Var>) {
        r.n.vars(out);
        for &(f, _) in &r.d {
            self.factors[f as usize].vars(out);
        }
    }
    fn smt_rf(&self, r: &RF) -> String {
        let n = r.n.smt(&Self::vname);
        if r.d.is_empty() {
            return n;
        }
        format!("(/ {} {})", n, self.smt_den(&r.d))
    }
    fn smt_den(&self, d: &[(u32, u32)]) -> String {
        let mut fs = vec![];
        for &(f, e) in d {
            let s = self.factors[f as usize].smt(&Self::vname);
            for _ in 0..e {
                fs.push(s.clone());
            }
        }
        if fs.len() == 1 {
            fs.pop().unwrap()
        } else {
            format!("(* {})", fs.join(" "))
        }
    }
    fn rel(e: &str, m: u8) -> String {
        match m {
            NEG => format!("(< {} 0.0)", e),
            ZERO => format!("(= {} 0.0)", e),
            POS => format!("(> {} 0.0)", e),
            3 => format!("(<= {} 0.0)", e),
            6 => format!("(>= {} 0.0)", e),
            5 => format!("(not (= {} 0.0))", e),
            0 => "false".into(),
            _ => "true".into(),
        }
    }
    fn smt_fact(&self, comps: &[(Poly, u32)], m: u8) -> String {
        let mut fs = vec![];
        for (p, e) in comps {
            let s = p.smt(&Self::vname);
            let k = if e % 2 == 1 { 1 } else { 2 };
            for _ in 0..k {
                fs.push(s.clone());
            }
        }
        let e = if fs.len() == 1 { fs.pop().unwrap() } else { format!("(* {})", fs.join(" ")) };
        Self::rel(&e, m)
    }
    /// Full script: declarations, definitions of used tower variables, path condition, goal.
    fn script(&self, extra: &[String], extra_vars: &BTreeSet<Var>, all: bool) -> String {
        let mut used: BTreeSet<Var> = extra_vars.clone();
        // relevance: facts connected to the goal (unless a full model is wanted)
        let fv: Vec<BTreeSet<Var>> = self
            .emitted
            .iter()
            .map(|(c, _)| {
                let mut s = BTreeSet::new();
                for (p, _) in c {
                    p.vars(&mut s);
                }
                self.close(&mut s);
                s
            })
            .collect();
        self.close(&mut used);
        let mut inc = vec![all; fv.len()];
        if all {
            for s in &fv {
                used.extend(s.iter().cloned());
            }
        } else {
            loop {
                let mut ch = false;
                for i in 0..fv.len() {
                    if !inc[i] && fv[i].iter().any(|v| used.contains(v)) {
                        inc[i] = true;
                        used.extend(fv[i].iter().cloned());
                        ch = true;
                    }
                }
                if !ch {
                    break;
                }
            }
        }
        let mut s = String::from("(set-logic QF_NRA)\n");
        for &v in &used {
            s += &format!("(declare-const v{} Real)\n", v);
        }
        for &v in &used {
            let n = Self::vname(v);
            match &self.vars[v as usize].kind {
                VK::Input(_) => {}
                VK::Root(r) => {
                    s += &format!("(assert (>= {} 0.0))\n(assert (= (* {} {}) {}))\n", n, n, n, r.smt(&Self::vname));
                }
                VK::AbsV(r) => {
                    let e = r.smt(&Self::vname);
                    s += &format!("(assert (= {} (ite (>= {} 0.0) {} (- {}))))\n", n, e, e, e);
                }
                VK::MaxV(a, b) | VK::MinV(a, b) => {
                    let op = if matches!(self.vars[v as usize].kind, VK::MaxV(..)) { ">=" } else { "<=" };
                    let (ea, eb) = (self.smt_rf(a), self.smt_rf(b));
                    s += &format!("(assert (= {} (ite ({} {} {}) {} {})))\n", n, op, ea, eb, ea, eb);
                }
                VK::Opq(op, rs) => {
                    let (a, b) = (&rs[0], &rs[1]);
                    let (na, nb) = (a.n.smt(&Self::vname), b.n.smt(&Self::vname));
                    let da = if a.d.is_empty() { "1.0".into() } else { self.smt_den(&a.d) };
                    let db = if b.d.is_empty() { "1.0".into() } else { self.smt_den(&b.d) };
                    let (l, r) = match op {
                        Op::Mul(..) => (format!("(* {} {} {})", n, da, db), format!("(* {} {})", na, nb)),
                        Op::Div(..) => (format!("(* {} {} {})", n, da, nb), format!("(* {} {})", na, db)),
                        Op::Add(..) => (format!("(* {} {} {})", n, da, db), format!("(+ (* {} {}) (* {} {}))", na, db, nb, da)),
                        _ => (format!("(* {} {} {})", n, da, db), format!("(- (* {} {}) (* {} {}))", na, db, nb, da)),
                    };
                    s += &format!("(assert (= {} {}))\n", l, r);
                }
            }
        }
        for (i, (c, m)) in self.emitted.iter().enumerate() {
            if inc[i] {
                s += &format!("(assert {})\n", self.smt_fact(c, *m));
            }
        }
        for e in extra {
            s += &format!("(assert {})\n", e);
        }
        s
    }
    fn close(&self, used: &mut BTreeSet<Var>) {
        let mut todo: Vec<Var> = used.iter().cloned().collect();
        while let Some(v) = todo.pop() {
            let mut more = BTreeSet::new();
            match &self.vars[v as usize].kind {
                VK::Input(_) => {}
                VK::Root(r) | VK::AbsV(r) => r.vars(&mut more),
                VK::MaxV(a, b) | VK::MinV(a, b) => {
                    self.rf_vars(a, &mut more);
                    self.rf_vars(b, &mut more);
                }
                VK::Opq(_, rs) => {
                    for r in rs {
                        self.rf_vars(r, &mut more);
                    }
                }
            }
            for m in more {
                if used.insert(m) {
                    todo.push(m);
                }
            }
        }
    }
    fn feasible(&mut self, p: &Poly, mask: u8) -> Res {
        let mut vs = BTreeSet::new();
        p.vars(&mut vs);
        let e = Self::rel(&p.smt(&Self::vname), mask);
        let s = self.script(&[e], &vs, false);
        let ms = self.lim.feas_ms;
        self.solver.query(&s, "", ms).0
    }
    /// Solver verdict on: path condition and sign(node) in mask.
    pub fn ask(&mut self, node: Id, mask: u8, ms: u64) -> (Res, Option<Vec<f64>>) {
        let r = self.nf(node);
        if r.n.is_zero() {
            return (if mask & ZERO != 0 { Res::Sat } else { Res::Unsat }, None);
        }
        let m = self.rf_mask(&r);
        if m & mask == 0 {
            // sign determined by the facts: let the solver confirm
        }
        let (cs, comps) = self.comps(&r);
        let mask = if cs < 0 { flip(mask) } else { mask };
        let zq = mask == ZERO || mask == (NEG | POS);
        let cc: Vec<(Poly, u32)> = comps.into_iter().filter(|c| c.2 || !zq).map(|c| (c.0, c.1)).collect();
        let mut vs = BTreeSet::new();
        for (p, _) in &cc {
            p.vars(&mut vs);
        }
        let e = if cc.is_empty() {
            if mask & POS != 0 { "true".to_string() } else { "false".to_string() }
        } else {
            self.smt_fact(&cc, mask)
        };
        let s = self.script(&[e.clone()], &vs, false);
        let (res, _) = self.solver.query(&s, "", ms);
        if res != Res::Sat {
            return (res, None);
        }
        // full model
        let mdl = self.model(&[e], &vs, ms);
        match mdl {
            Some(m) => (Res::Sat, Some(m)),
            None => (Res::Sat, None),
        }
    }
    /// Inputs that follow the current path: a probe if one does, else the solver's.
    pub fn path_model(&mut self, ms: u64) -> Option<Vec<f64>> {
        match self.probe_model() {
            Some(m) => Some(m),
            None => self.model(&[], &Default::default(), ms),
        }
    }
    /// A model of the path condition (plus extra constraints), as input values; small, round
    /// values are preferred.
    pub fn model(&mut self, extra: &[String], vs: &BTreeSet<Var>, ms: u64) -> Option<Vec<f64>> {
        let mut vs = vs.clone();
        for (k, &v) in self.input_var.iter().enumerate() {
            if self.subst[k].is_none() {
                vs.insert(v);
            }
        }
        let names: Vec<String> = self
            .input_var
            .iter()
            .enumerate()
            .filter(|(k, _)| self.subst[*k].is_none())
            .map(|(_, v)| Self::vname(*v))
            .collect();
        let vals: HashMap<String, f64> = if names.is_empty() {
            HashMap::new()
        } else {
            let get = names.join(" ");
            let mut got = None;
            for round in 0..3 {
                let mut ex: Vec<String> = extra.to_vec();
                if round < 2 {
                    for n in &names {
                        let b = if round == 0 { "4.0" } else { "64.0" };
                        ex.push(format!("(<= (- {}) {} {})", b, n, b));
                        if round == 0 {
                            ex.push(format!("(or (= {} 0.0) (>= {} 0.25) (<= {} (- 0.25)))", n, n, n));
                        }
                    }
                }
                let s = self.script(&ex, &vs, true);
                let (r, txt) = self.solver.query(&s, &get, if round == 2 { ms } else { ms.min(ms / 4 + 200) });
                if r == Res::Sat && !txt.is_empty() {
                    let m: HashMap<String, f64> =
                        parse_pairs(&txt).into_iter().filter_map(|(k, v)| num(&v).map(|x| (k, x))).collect();
                    if m.len() == names.len() {
                        got = Some(m);
                        break;
                    }
                }
                if r == Res::Unsat && round == 2 {
                    return None;
                }
            }
            got?
        };
        let mut out = vec![0.0; self.input_var.len()];
        for (k, &v) in self.input_var.iter().enumerate() {
            if self.subst[k].is_none() {
                out[k] = vals[&Self::vname(v)];
            }
        }
        let by_var: HashMap<Var, f64> = self.input_var.iter().cloned().zip(out.iter().cloned()).collect();
        for k in 0..self.subst.len() {
            if let Some(p) = &self.subst[k] {
                let mut s = 0.0;
                for (m, q) in &p.t {
                    let mut t = q.to_f64();
                    for &(v, e) in m {
                        t *= by_var[&v].powi(e as i32);
                    }
                    s += t;
                }
                out[k] = s;
            }
        }
        Some(out)
    }
    /// Restrict the path without exploring the complement.
    pub fn assume(&mut self, node: Id, set: u8) {
        let r = self.nf(node);
        if r.n.is_zero() {
            if set & ZERO == 0 {
                abort(Abort::Infeasible);
            }
            return;
        }
        let m = self.rf_mask(&r);
        if m & set == 0 {
            abort(Abort::Infeasible);
        }
        if m & !set == 0 {
            return;
        }
        let (cs, comps) = self.comps(&r);
        let mask = if cs < 0 { flip(set) } else { set };
        let cc: Vec<(Poly, u32)> = comps.into_iter().map(|c| (c.0, c.1)).collect();
        self.facts.push(Fact { node, mask: set, emit: true });
        self.install(&cc, mask, true);
        // consistency
        let s = self.script(&[], &BTreeSet::new(), true);
        let ms = self.lim.feas_ms;
        if self.solver.query(&s, "", ms).0 == Res::Unsat {
            abort(Abort::Infeasible);
        }
    }
    /// Value of free input `k` in probe `j`.
    fn draw(j: usize, k: usize) -> f64 {
        let mut h = (j as u64 + 1 + 1000 * *PROBE_SEED).wrapping_mul(0x9E3779B97F4A7C15) ^ (k as u64 + 7).wrapping_mul(0xC2B2AE3D27D4EB4F);
        h ^= h >> 29;
        h = h.wrapping_mul(0xBF58476D1CE4E5B9);
        h ^= h >> 32;
        let u = (h % 1000) as i64;
        match j % 5 {
            0 => (u % 5 - 2) as f64,
            1 => {
                let x = (u % 16 + 1) as f64 / 4.0;
                if u / 16 % 2 == 0 { x } else { -x }
            }
            2 => (u % 24 + 1) as f64 / 4.0,
            3 => {
                if u % 3 == 0 {
                    0.0
                } else {
                    (u / 3 % 33) as f64 / 4.0 - 4.0
                }
            }
            _ => (u % 65) as f64 / 8.0 - 4.0,
        }
    }
    fn probe_new(&self, j: usize) -> Probe {
        let base = if j < self.seeds.len() { self.seeds[self.seeds.len() - 1 - j].clone() } else { vec![] };
        Probe { base, vals: vec![], facts: 0, ok: true }
    }
    /// bring one probe up to date with the terms and the path condition
    fn probe_sync(&mut self, j: usize) {
        let n = self.nodes.len();
        let mut p = std::mem::replace(&mut self.probes[j], Probe { base: vec![], vals: vec![], facts: 0, ok: false });
        if p.ok {
            let seeded = !p.base.is_empty() || j < self.seeds.len();
            for k in p.base.len()..self.input_names.len() {
                p.base.push(if seeded { 1.0 } else { Self::draw(j, k) });
            }
            p.vals.reserve(n - p.vals.len());
            for i in p.vals.len()..n {
                let v = &p.vals;
                let x = match &self.nodes[i] {
                    Op::C(q) => q.to_f64(),
                    Op::PInf => f64::INFINITY,
                    Op::NInf => f64::NEG_INFINITY,
                    Op::NaN => f64::NAN,
                    Op::In(k) => match &self.subst[*k as usize] {
                        None => p.base[*k as usize],
                        Some(e) => {
                            let mut s = 0.0;
                            for (m, q) in &e.t {
                                let mut t = q.to_f64();
                                for &(w, ex) in m {
                                    if let VK::Input(kk) = &self.vars[w as usize].kind {
                                        t *= p.base[*kk as usize].powi(ex as i32);
                                    } else {
                                        t = f64::NAN;
                                    }
                                }
                                s += t;
                            }
                            s
                        }
                    },
                    Op::Add(a, b) => v[*a as usize] + v[*b as usize],
                    Op::Sub(a, b) => v[*a as usize] - v[*b as usize],
                    Op::Mul(a, b) => v[*a as usize] * v[*b as usize],
                    Op::Div(a, b) => v[*a as usize] / v[*b as usize],
                    Op::Neg(a) => -v[*a as usize],
                    Op::Sqrt(a) => v[*a as usize].max(0.0).sqrt(),
                    Op::Abs(a) => v[*a as usize].abs(),
                    Op::Max(a, b) => v[*a as usize].max(v[*b as usize]),
                    Op::Min(a, b) => v[*a as usize].min(v[*b as usize]),
                };
                p.vals.push(x);
            }
            while p.ok && p.facts < self.facts.len() {
                let f = &self.facts[p.facts];
                if num_sign(p.vals[f.node as usize]) & f.mask == 0 {
                    p.ok = false;
                    p.vals = vec![];
                }
                p.facts += 1;
            }
        }
        self.probes[j] = p;
    }
    /// Probes that satisfy the path condition (numerically, away from its boundary).
    fn probe_alive(&mut self) -> Vec<usize> {
        let mut alive = vec![];
        let room = 4_000_000 / (self.nodes.len() + 1);
        let want = 12.min(room.max(2));
        let total = (PROBES + self.seeds.len()).min(room.max(24));
        for j in 0..self.probes.len() {
            self.probe_sync(j);
            if self.probes[j].ok {
                alive.push(j);
            }
        }
        while alive.len() < want && self.probes.len() < total {
            let j = self.probes.len();
            let p = self.probe_new(j);
            self.probes.push(p);
            self.probe_sync(j);
            if self.probes[j].ok {
                alive.push(j);
            }
        }
        alive
    }
    /// Signs a term takes at the live probes.
    fn probe_signs(&mut self, node: Id) -> u8 {
        let mut m = 0;
        for j in self.probe_alive() {
            m |= num_sign(self.probes[j].vals[node as usize]);
        }
        m
    }
    fn probe_inputs(&self, j: usize) -> Vec<f64> {
        (0..self.input_names.len()).map(|k| self.probes[j].vals[self.memo[&Op::In(k as u32)] as usize]).collect()
    }
    /// Inputs of a probe on this path at which the term has a sign in `mask`, by a wide margin.
    pub fn probe_violating(&mut self, node: Id, mask: u8) -> Option<Vec<f64>> {
        for j in self.probe_alive() {
            let x = self.probes[j].vals[node as usize];
            if x.abs() > 1e-3 && num_sign(x) & mask != 0 {
                return Some(self.probe_inputs(j));
            }
        }
        None
    }
    /// Inputs of a probe on this path.
    pub fn probe_model(&mut self) -> Option<Vec<f64>> {
        let v = self.probe_alive();
        v.first().map(|&j| self.probe_inputs(j))
    }
    pub fn path_script(&self) -> String {
        self.script(&[], &BTreeSet::new(), true)
    }
    pub fn input_vars(&self) -> &Vec<Var> {
        &self.input_var
    }
    /// f64 interpretation of the recorded term graph (validation of the encoding).
    pub fn eval_all(&self, inputs: &[f64]) -> Vec<f64> {
        let mut v: Vec<f64> = Vec::with_capacity(self.nodes.len());
        for op in &self.nodes {
            let x = match op {
                Op::C(q) => q.to_f64(),
                Op::PInf => f64::INFINITY,
                Op::NInf => f64::NEG_INFINITY,
                Op::NaN => f64::NAN,
                Op::In(k) => inputs[*k as usize],
                Op::Add(a, b) => v[*a as usize] + v[*b as usize],
                Op::Sub(a, b) => v[*a as usize] - v[*b as usize],
                Op::Mul(a, b) => v[*a as usize] * v[*b as usize],
                Op::Div(a, b) => v[*a as usize] / v[*b as usize],
                Op::Neg(a) => -v[*a as usize],
                Op::Sqrt(a) => v[*a as usize].max(0.0).sqrt(),
                Op::Abs(a) => v[*a as usize].abs(),
                Op::Max(a, b) => v[*a as usize].max(v[*b as usize]),
                Op::Min(a, b) => v[*a as usize].min(v[*b as usize]),
            };
            v.push(x);
        }
        v
    }
    pub fn show_nf(&mut self, id: Id) -> String {
        let r = self.nf(id);
        let mut o = self.smt_rf(&r);
        for (i, v) in self.vars.iter().enumerate() {
            if !matches!(v.kind, VK::Input(_)) {
                o += &format!("\n    v{} = {} {}", i, match &v.kind { VK::Root(p) => format!("root {}", self.smt_rf(&RF { n: p.clone(), d: vec![] })), VK::AbsV(p) => format!("abs {}", self.smt_rf(&RF { n: p.clone(), d: vec![] })), VK::MaxV(a, b) => format!("max {} {}", self.smt_rf(a), self.smt_rf(b)), _ => "other".into() }, if let Some(sq) = &v.sq { format!("sq {}", sq.len()) } else { String::new() });
            }
        }
        o
    }
}

impl Engine {
    /// As `ask`, with every unsubstituted input except the `free`-th fixed near the model (rounded
    /// to a short rational that satisfies the path condition); None if that is not possible.
    pub fn ask_pinned(&mut self, node: Id, mask: u8, mv: &[f64], free: usize, ms: u64) -> Option<(Res, Option<Vec<f64>>)> {
        let live: Vec<usize> = (0..self.input_var.len()).filter(|&k| self.subst[k].is_none()).collect();
        if live.is_empty() {
            return None;
        }
        let f = live[free % live.len()];
        let mut pins = vec![];
        let mut vs = BTreeSet::new();
        for &k in &live {
            let v = self.input_var[k];
            vs.insert(v);
            if k != f {
                let q = Q::new(
                    crate::rat::Int::of((mv[k] * 64.0).round() as i128),
                    crate::rat::Int::of(64),
                );
                pins.push(format!("(= {} {})", Self::vname(v), q.smt()));
            }
        }
        let s = self.script(&pins, &vs, true);
        if self.solver.query(&s, "", ms).0 != Res::Sat {
            return None;
        }
        let r = self.nf(node);
        let (cs, comps) = self.comps(&r);
        let mask = if cs < 0 { flip(mask) } else { mask };
        let zq = mask == ZERO || mask == (NEG | POS);
        let cc: Vec<(Poly, u32)> = comps.into_iter().filter(|c| c.2 || !zq).map(|c| (c.0, c.1)).collect();
        for (p, _) in &cc {
            p.vars(&mut vs);
        }
        let e = if cc.is_empty() { "true".to_string() } else { self.smt_fact(&cc, mask) };
        pins.push(e);
        let s = self.script(&pins, &vs, true);
        let res = self.solver.query(&s, "", ms).0;
        let m = if res == Res::Sat { self.model(&pins, &vs, ms) } else { None };
        Some((res, m))
    }
}
