//! Harness interface: the same generic harness runs on symbolic and on native scalars.
use crate::engine::*;
use crate::rat::Q;
use crate::solver::Res;
use crate::sym::Sym;
use linfa_linalg::lobpcg::MagnitudeCorrection;
use ndarray::{NdFloat, ScalarOperand};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

#[derive(Clone, Debug)]
pub struct Fail {
    pub claim: String,
    pub detail: String,
    pub model: Option<Vec<f64>>,
}

pub struct Ctx {
    pub native: bool,
    pub vals: Vec<f64>,
    idx: usize,
    pub fails: Vec<Fail>,
    pub rec: Vec<(Id, Id)>,
    pub nrec: Vec<(f64, f64)>,
    pub scale: f64,
    pub tol: f64,
    pub assume_failed: bool,
    pub undecided: Vec<String>,
    pub claim_names: Vec<String>,
    rebuilt_at: usize,
    /// factor on every input
    pub unit: f64,
    /// which zero inputs are negative zeros: none, all, every second one
    pub zeros: u8,
}

impl Ctx {
    pub fn new(native: bool, vals: Vec<f64>) -> Ctx {
        Ctx {
            native,
            vals,
            idx: 0,
            fails: vec![],
            rec: vec![],
            nrec: vec![],
            scale: 1.0,
            tol: 1e-5,
            assume_failed: false,
            undecided: vec![],
            claim_names: vec![],
            rebuilt_at: usize::MAX,
            unit: 1.0,
            zeros: 0,
        }
    }
    /// A concrete yes/no claim.
    pub fn check(&mut self, name: &str, ok: bool) {
        if !self.native {
            with(|e| {
                e.stats.claims += 1;
                if ok {
                    e.stats.claims_nf += 1
                }
            });
        }
        self.claim_names.push(name.to_string());
        if !ok {
            let model = if self.native {
                None
            } else {
                with(|e| {
                    e.stats.claims_sat += 1;
                    e.path_model(8000)
                })
            };
            self.fails.push(Fail { claim: name.into(), detail: "does not hold".into(), model });
        }
    }
    fn sym_claim(&mut self, name: &str, node: Id, bad: u8) {
        self.claim_names.push(name.to_string());
        let n = with(|e| e.trace.len());
        if self.rebuilt_at != n {
            with(|e| e.rebuild());
            self.rebuilt_at = with(|e| e.trace.len());
        }
        with(|e| e.stats.claims += 1);
        if let Some(x) = with(|e| e.special(node)) {
            let ok = !x.is_nan() && (if x > 0.0 { POS } else { NEG }) & bad == 0;
            with(|e| {
                if ok {
                    e.stats.claims_nf += 1
                } else {
                    e.stats.claims_sat += 1
                }
            });
            if !ok {
                let model = with(|e| e.path_model(8000));
                self.fails.push(Fail { claim: name.into(), detail: format!("value is {}", x), model });
            }
            return;
        }
        let zero = with(|e| {
            let r = e.nf(node);
            r.n.is_zero()
        });
        if zero && bad & ZERO == 0 {
            with(|e| e.stats.claims_nf += 1);
            return;
        }
        let ms = with(|e| e.lim.claim_ms);
        let (r, m) = with(|e| e.ask(node, bad, ms));
        match r {
            Res::Unsat => with(|e| e.stats.claims_z3 += 1),
            Res::Sat => {
                with(|e| e.stats.claims_sat += 1);
                let detail = if std::env::var("SYMX_DEBUG").is_ok() {
                    with(|e| format!("nf {}", e.show_nf(node).chars().take(600).collect::<String>()))
                } else {
                    "refuted by the solver".into()
                };
                let m = m.or_else(|| with(|e| e.probe_violating(node, bad)));
                self.fails.push(Fail { claim: name.into(), detail, model: m });
            }
            Res::Unknown => {
                if let Some(m) = with(|e| e.probe_violating(node, bad)) {
                    with(|e| e.stats.claims_sat += 1);
                    self.fails.push(Fail { claim: name.into(), detail: "refuted at a point of the path".into(), model: Some(m) });
                    return;
                }
                // fix all inputs but one at a model of the path
                let mut done = 0;
                let n = with(|e| e.input_names.len());
                if let Some(mv) = with(|e| e.path_model(4000)) {
                    for free in 0..n.min(3) {
                        let r = with(|e| e.ask_pinned(node, bad, &mv, free, ms.min(4000)));
                        match r {
                            Some((Res::Unsat, _)) => done += 1,
                            Some((Res::Sat, m)) => {
                                with(|e| e.stats.claims_sat += 1);
                                self.fails.push(Fail { claim: name.into(), detail: "refuted by the solver (inputs partly fixed)".into(), model: m });
                                return;
                            }
                            _ => {}
                        }
                    }
                }
                if std::env::var("SYMX_DEBUG").is_ok() {
                    let s = with(|e| e.show_nf(node));
                    eprintln!("not closed {}: {}", name, s.chars().take(6000).collect::<String>());
                }
                if done > 0 {
                    with(|e| e.stats.claims_part += 1);
                } else {
                    with(|e| e.stats.claims_undecided += 1);
                    self.undecided.push(name.to_string());
                }
            }
        }
    }
}

pub trait Scalar:
    NdFloat + std::iter::Sum + MagnitudeCorrection + ScalarOperand + Send + Sync + 'static
{
    const SYM: bool;
    fn input(c: &mut Ctx, name: &str) -> Self;
    fn lit(x: f64) -> Self;
    fn frac(a: i64, b: i64) -> Self;
    /// sign of x must be in `set`
    fn claim_sign(c: &mut Ctx, name: &str, x: Self, set: u8);
    fn claim_eq(c: &mut Ctx, name: &str, a: Self, b: Self);
    fn assume_sign(c: &mut Ctx, x: Self, set: u8);
    /// bit-for-bit equality natively, identity of value symbolically
    fn claim_same(c: &mut Ctx, name: &str, a: Self, b: Self);
    fn approx(self) -> f64;
}

pub struct AssumeFailed;

impl Scalar for Sym {
    const SYM: bool = true;
    fn input(c: &mut Ctx, name: &str) -> Sym {
        let x = Sym(with(|e| e.input(name)));
        if c.unit == 1.0 {
            x
        } else {
            x * Sym::f(c.unit)
        }
    }
    fn lit(x: f64) -> Sym {
        Sym::f(x)
    }
    fn frac(a: i64, b: i64) -> Sym {
        Sym::q(Q::frac(a as i128, b as i128))
    }
    fn claim_sign(c: &mut Ctx, name: &str, x: Sym, set: u8) {
        let z = with(|e| e.cst(Q::zero()));
        c.rec.push((x.0, z));
        c.sym_claim(name, x.0, ANY & !set);
    }
    fn claim_eq(c: &mut Ctx, name: &str, a: Sym, b: Sym) {
        c.rec.push((a.0, b.0));
        if let (Some(x), Some(y)) = (with(|e| e.special(a.0)), with(|e| e.special(b.0))) {
            c.check(name, x == y);
            return;
        }
        let d = with(|e| e.sub(a.0, b.0));
        c.sym_claim(name, d, NEG | POS);
    }
    fn claim_same(c: &mut Ctx, name: &str, a: Sym, b: Sym) {
        Self::claim_eq(c, name, a, b)
    }
    fn assume_sign(_c: &mut Ctx, x: Sym, set: u8) {
        with(|e| {
            if let Op::C(q) = &e.nodes[x.0 as usize] {
                let m = match q.sign() {
                    -1 => NEG,
                    0 => ZERO,
                    _ => POS,
                };
                if m & set == 0 {
                    std::panic::panic_any(Abort::Infeasible);
                }
                return;
            }
            e.assume(x.0, set)
        })
    }
    fn approx(self) -> f64 {
        f64::NAN
    }
}

macro_rules! native {
    ($t:ty, $tolmul:expr) => {
        impl Scalar for $t {
            const SYM: bool = false;
            fn input(c: &mut Ctx, _name: &str) -> $t {
                let v = c.vals.get(c.idx).copied().unwrap_or(0.0);
                c.idx += 1;
                if v == 0.0 && (c.zeros == 1 || c.zeros >= 2 && c.idx % 2 == c.zeros as usize - 2) {
                    return -0.0;
                }
                (v * c.unit) as $t
            }
            fn lit(x: f64) -> $t {
                x as $t
            }
            fn frac(a: i64, b: i64) -> $t {
                a as $t / b as $t
            }
            fn claim_sign(c: &mut Ctx, name: &str, x: $t, set: u8) {
                c.claim_names.push(name.to_string());
                c.nrec.push((x as f64, 0.0));
                let tol = c.tol * $tolmul * c.scale.max(1e-300);
                let x = x as f64;
                let ok = if x.is_nan() {
                    false
                } else {
                    (set & NEG != 0 && x < tol) || (set & POS != 0 && x > -tol) || (set & ZERO != 0 && x.abs() <= tol)
                };
                // strict claims on exact zeros stay strict
                let ok = ok && !(x == 0.0 && set & ZERO == 0);
                if !ok {
                    c.fails.push(Fail { claim: name.into(), detail: format!("value {:e}", x), model: None });
                }
            }
            fn claim_eq(c: &mut Ctx, name: &str, a: $t, b: $t) {
                c.claim_names.push(name.to_string());
                let (a, b) = (a as f64, b as f64);
                c.nrec.push((a, b));
                let tol = c.tol * $tolmul * c.scale.max(a.abs()).max(b.abs());
                if !((a - b).abs() <= tol || a == b) {
                    c.fails.push(Fail { claim: name.into(), detail: format!("{:e} != {:e}", a, b), model: None });
                }
            }
            fn claim_same(c: &mut Ctx, name: &str, a: $t, b: $t) {
                c.claim_names.push(name.to_string());
                c.nrec.push((a as f64, b as f64));
                if !(a == b || (a.is_nan() && b.is_nan())) {
                    c.fails.push(Fail { claim: name.into(), detail: format!("{:e} is not {:e}", a, b), model: None });
                }
            }
            fn assume_sign(c: &mut Ctx, x: $t, set: u8) {
                let m = if x < 0.0 { NEG } else if x > 0.0 { POS } else { ZERO };
                if m & set == 0 {
                    c.assume_failed = true;
                    std::panic::panic_any(AssumeFailed);
                }
            }
            fn approx(self) -> f64 {
                self as f64
            }
        }
    };
}
native!(f64, 1.0);
native!(f32, 1e3);

/// Run `f`; Err(message) if it panicked. Engine aborts pass through.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(p) => {
            if p.is::<Abort>() || p.is::<AssumeFailed>() {
                std::panic::resume_unwind(p);
            }
            Err(panic_text(&p))
        }
    }
}
pub fn panic_text(p: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

pub type Harness = Arc<dyn Fn(&mut Ctx) + Send + Sync>;

#[derive(Clone)]
pub struct Job {
    pub name: String,
    pub desc: String,
    pub sym: Harness,
    pub nat: Harness,
    pub nat32: Harness,
    pub eps: f64,
    pub unit: f64,
    pub zsign: bool,
    pub lim: Limits,
    pub max_paths: usize,
    pub secs: u64,
}

pub fn base_limits() -> Limits {
    Limits { max_decisions: 400, max_terms: 60_000, max_nodes: 400_000, feas_ms: 400, claim_ms: 8000 }
}

#[macro_export]
macro_rules! job {
    ($v:expr, $name:expr, |$c:ident, $a:ident| $body:expr) => {{
        let sym: $crate::ctx::Harness = std::sync::Arc::new(move |$c: &mut $crate::ctx::Ctx| {
            type $a = $crate::sym::Sym;
            $body
        });
        let nat: $crate::ctx::Harness = std::sync::Arc::new(move |$c: &mut $crate::ctx::Ctx| {
            type $a = f64;
            $body
        });
        let nat32: $crate::ctx::Harness = std::sync::Arc::new(move |$c: &mut $crate::ctx::Ctx| {
            type $a = f32;
            $body
        });
        $v.push($crate::ctx::Job {
            name: $name.to_string(),
            desc: String::new(),
            sym,
            nat,
            nat32,
            eps: 0.0,
            unit: 1.0,
            zsign: false,
            lim: $crate::ctx::base_limits(),
            max_paths: 3000,
            secs: 60,
        });
        $v.last_mut().unwrap()
    }};
}

impl Job {
    pub fn desc(&mut self, d: &str) -> &mut Job {
        self.desc = d.into();
        self
    }
    pub fn eps(&mut self, e: f64) -> &mut Job {
        self.eps = e;
        self
    }
    /// every input small against one, with the machine epsilon of f64 visible
    pub fn tiny(&mut self) -> &mut Job {
        self.name = format!("tiny-{}", self.name);
        self.unit = (0.5f64).powi(60);
        self.eps = f64::EPSILON;
        self
    }
    /// every input a multiple of 2^e: overflow and underflow show on the native runs of path models
    pub fn unit(&mut self, e: i32) -> &mut Job {
        self.name = format!("unit{}-{}", e, self.name);
        self.unit = 2f64.powi(e);
        self
    }
    pub fn secs(&mut self, s: u64) -> &mut Job {
        self.secs = s;
        self
    }
    pub fn paths(&mut self, n: usize) -> &mut Job {
        self.max_paths = n;
        self
    }
    pub fn decisions(&mut self, n: usize) -> &mut Job {
        self.lim.max_decisions = n;
        self
    }
    /// zeros may be of either sign
    pub fn zsign(&mut self) -> &mut Job {
        self.zsign = true;
        self
    }
    pub fn terms(&mut self, n: usize) -> &mut Job {
        self.lim.max_terms = n;
        self
    }
    pub fn claim_ms(&mut self, n: u64) -> &mut Job {
        self.lim.claim_ms = n;
        self
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub job: String,
    pub claim: String,
    pub detail: String,
    pub inputs: Vec<(String, f64)>,
}

#[derive(Default, Clone, Debug)]
pub struct Report {
    pub stats: Stats,
    pub solver: crate::solver::SolverStats,
    pub violations: Vec<Violation>,
    pub unconfirmed: Vec<Violation>,
    pub undecided: Vec<String>,
    pub cuts: Vec<String>,
    pub samples: Vec<String>,
    pub exhaustive: bool,
    pub max_err: f64,
    pub witness: u64,
    pub internal: bool,
}

#[derive(Debug, Clone)]
pub enum Native {
    Done(Vec<Fail>, Vec<(f64, f64)>),
    Panic(String),
    Skipped,
    Hang,
}

pub fn run_native(j: &Job, vals: Vec<f64>, secs: u64) -> Native {
    let r = run_native_once(j, vals.clone(), 0, secs);
    if !j.zsign || !vals.contains(&0.0) || !matches!(&r, Native::Done(f, _) if f.is_empty()) {
        return r;
    }
    for z in 1..4 {
        match run_native_once(j, vals.clone(), z, secs) {
            Native::Done(f, _) if f.is_empty() => (),
            Native::Skipped => (),
            r => return r,
        }
    }
    r
}
fn run_native_once(j: &Job, vals: Vec<f64>, zeros: u8, secs: u64) -> Native {
    let (h, unit) = (j.nat.clone(), j.unit);
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            let mut c = Ctx::new(true, vals);
            c.unit = unit;
            c.zeros = zeros;
            let r = catch_unwind(AssertUnwindSafe(|| h(&mut c)));
            let out = match r {
                Ok(()) => Native::Done(c.fails, c.nrec),
                Err(p) if p.is::<AssumeFailed>() => Native::Skipped,
                Err(p) => Native::Panic(panic_text(&p)),
            };
            let _ = tx.send(out);
        })
        .unwrap();
    match rx.recv_timeout(std::time::Duration::from_secs(secs)) {
        Ok(r) => r,
        Err(_) => Native::Hang,
    }
}

fn named(names: &[String], m: &[f64]) -> Vec<(String, f64)> {
    names.iter().cloned().zip(m.iter().cloned()).collect()
}

/// Explore all paths of one harness.
pub fn explore(job: &Job) -> Report {
    let mut rep = Report { exhaustive: true, ..Default::default() };
    let mut eng = Engine::new(job.lim);
    eng.eps = job.eps;
    eng.zsign = job.zsign;
    eng.deadline = std::time::Instant::now() + std::time::Duration::from_secs(job.secs);
    let deadline = eng.deadline;
    ENG.with(|e| *e.borrow_mut() = Some(eng));
    let mut work: Vec<Vec<bool>> = vec![vec![]];
    let dbg = std::env::var("SYMX_DEBUG").is_ok();
    let t0 = std::time::Instant::now();
    let mut hangs = 0;
    while let Some(prefix) = work.pop() {
        if std::time::Instant::now() > deadline || STOP.load(std::sync::atomic::Ordering::Relaxed) {
            rep.exhaustive = false;
            rep.cuts.push(format!("{}: time, {} branches unexplored", job.name, work.len() + 1));
            break;
        }
        if with(|e| e.stats.paths) as usize >= job.max_paths {
            rep.exhaustive = false;
            rep.cuts.push(format!("{}: path bound, {} branches unexplored", job.name, work.len() + 1));
            break;
        }
        with(|e| e.reset_path(prefix));
        let mut c = Ctx::new(false, vec![]);
        c.unit = job.unit;
        crate::mem::deadline(Some(deadline.saturating_duration_since(std::time::Instant::now()) + std::time::Duration::from_secs(5)));
        let r = catch_unwind(AssertUnwindSafe(|| (job.sym)(&mut c)));
        crate::mem::deadline(None);
        with(|e| {
            work.append(&mut e.pending);
            e.stats.paths += 1;
            e.stats.nodes = e.stats.nodes.max(e.nodes.len() as u64);
        });
        let names = with(|e| e.input_names.clone());
        let mut cand: Vec<Fail> = std::mem::take(&mut c.fails);
        rep.undecided.extend(c.undecided.iter().map(|u| format!("{}: {}", job.name, u)));
        let mut complete = false;
        let mut why = String::new();
        match r {
            Ok(()) => complete = true,
            Err(p) => match p.downcast_ref::<Abort>() {
                Some(Abort::Infeasible) => {
                    with(|e| e.stats.infeasible += 1);
                    if cand.is_empty() {
                        continue;
                    }
                }
                Some(Abort::Cut(m)) => {
                    with(|e| e.stats.cut += 1);
                    rep.exhaustive = false;
                    let t = format!("{}: {}", job.name, m);
                    if !rep.cuts.contains(&t) {
                        rep.cuts.push(t);
                    }
                    why = m.clone();
                    if m == "time" && cand.is_empty() {
                        continue;
                    }
                }
                Some(Abort::Exceptional(m)) => {
                    with(|e| e.stats.exceptional += 1);
                    why = m.clone();
                }
                None => {
                    let m = panic_text(&p);
                    let model = with(|e| e.path_model(8000));
                    cand.push(Fail { claim: "no-panic".into(), detail: m.clone(), model });
                    why = m;
                }
            },
        }
        // concrete validation of the path
        let model = with(|e| e.path_model(2000));
        if dbg {
            eprintln!(
                "[{}] path {} ({:.2}s): trace {} complete {} {} claims {} cand {} model {:?}",
                job.name,
                with(|e| e.stats.paths),
                t0.elapsed().as_secs_f64(),
                with(|e| e.trace.len()),
                complete,
                why,
                c.claim_names.len(),
                cand.len(),
                model.as_ref().map(|m| named(&names, m))
            );
        }
        if let Some(m) = &model {
            with(|e| {
                if e.seeds.len() < 24 {
                    e.seeds.push(m.clone())
                }
            });
            rep.witness += 1;
            match run_native(job, m.clone(), 10) {
                Native::Done(fails, nrec) => {
                    if fails.is_empty() {
                        // compare the encoding's values with the concrete ones
                        if complete {
                            let ev = with(|e| e.eval_all(m));
                            if nrec.len() == c.rec.len() {
                                let mut ok = true;
                                let mut worst = 0.0f64;
                                for (k, &(a, b)) in c.rec.iter().enumerate() {
                                    for (x, y) in [(ev[a as usize], nrec[k].0), (ev[b as usize], nrec[k].1)] {
                                        let d = (x - y).abs() / (1.0 + x.abs().max(y.abs()));
                                        if x.is_nan() || !(d < 1e-6) {
                                            ok = false;
                                        } else {
                                            worst = worst.max(d);
                                        }
                                    }
                                }
                                if ok {
                                    with(|e| e.stats.validated += 1);
                                    rep.max_err = rep.max_err.max(worst);
                                } else if dbg {
                                    eprintln!("[{}] values differ from the concrete run", job.name);
                                }
                            }
                        }
                    } else {
                        for f in fails {
                            rep.violations.push(Violation {
                                job: job.name.clone(),
                                claim: f.claim,
                                detail: format!("concrete run on a path model: {}", f.detail),
                                inputs: named(&names, m),
                            });
                        }
                    }
                }
                Native::Skipped => {}
                Native::Panic(p) => rep.violations.push(Violation {
                    job: job.name.clone(),
                    claim: "no-panic".into(),
                    detail: format!("concrete run on a path model panics: {}", p),
                    inputs: named(&names, m),
                }),
                Native::Hang => {
                    hangs += 1;
                    rep.violations.push(Violation {
                        job: job.name.clone(),
                        claim: "terminates".into(),
                        detail: "concrete run on a path model does not return within 10 s".into(),
                        inputs: named(&names, m),
                    })
                }
            }
            if rep.samples.len() < 2 && complete {
                rep.samples.push(format!(
                    "{}: {} decisions, {} claims, model {:?}",
                    job.name,
                    with(|e| e.trace.len()),
                    c.claim_names.len(),
                    named(&names, m)
                ));
            }
        }
        for f in cand {
            let mut v = Violation { job: job.name.clone(), claim: f.claim.clone(), detail: f.detail.clone(), inputs: vec![] };
            let mut ok = false;
            if let Some(m) = f.model.or(model.clone()) {
                v.inputs = named(&names, &m);
                match run_native(job, m.clone(), 10) {
                    Native::Done(fs, _) if !fs.is_empty() => {
                        ok = true;
                        v.detail = format!("{}; concrete: {} {}", f.detail, fs[0].claim, fs[0].detail);
                    }
                    Native::Panic(p) => {
                        ok = true;
                        v.detail = format!("{}; concrete: panic {}", f.detail, p);
                    }
                    Native::Hang => {
                        hangs += 1;
                        ok = true;
                        v.detail = format!("{}; concrete: does not return", f.detail);
                    }
                    _ => {}
                }
            }
            if ok {
                rep.violations.push(v);
            } else {
                rep.unconfirmed.push(v);
            }
        }
        if hangs >= 2 || rep.violations.len() >= 5 {
            rep.exhaustive = false;
            break;
        }
    }
    let eng = ENG.with(|e| e.borrow_mut().take()).unwrap();
    rep.stats = eng.stats.clone();
    rep.solver = eng.solver.stats.clone();
    rep
}
