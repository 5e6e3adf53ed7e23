use super::c14::{best, ord};
use super::util::*;
use crate::ctx::*;
use crate::engine::{POS, ZERO};
use crate::job;
use linfa_linalg::lobpcg::{lobpcg, Lobpcg, LobpcgResult, TruncatedEig};
use ndarray::prelude::*;
use rand::RngCore;

/// A generator that hands out the given numbers of [0, 1), one per draw of an f32 or f64.
#[derive(Clone, Debug)]
pub struct Script {
    pub vals: Vec<f64>,
    pub at: usize,
}
impl Script {
    pub fn new(v: &[f64]) -> Script {
        Script { vals: v.to_vec(), at: 0 }
    }
    fn draw(&mut self) -> f64 {
        let x = self.vals.get(self.at).copied().unwrap_or(0.5);
        self.at += 1;
        x
    }
}
impl RngCore for Script {
    fn next_u32(&mut self) -> u32 {
        (self.draw() * 4294967296.0) as u32
    }
    fn next_u64(&mut self) -> u64 {
        (self.draw() * 18446744073709551616.0) as u64
    }
    fn fill_bytes(&mut self, _: &mut [u8]) {
        unimplemented!()
    }
    fn try_fill_bytes(&mut self, _: &mut [u8]) -> Result<(), rand::Error> {
        unimplemented!()
    }
}
/// row-major start block from the numbers of the script
fn block<A: Scalar>(n: usize, k: usize, v: &[f64]) -> Array2<A> {
    Array2::from_shape_fn((n, k), |(i, j)| A::lit(v[i * k + j]))
}
fn same_res<A: Scalar>(c: &mut Ctx, nm: &str, scale: f64, a: &LobpcgResult<A>, b: &LobpcgResult<A>) {
    c.check(&format!("{}: both succeed or fail", nm), a.is_ok() == b.is_ok());
    match (best(a), best(b)) {
        (None, None) => c.check(&format!("{}: no result", nm), true),
        (Some(a), Some(b)) => {
            let ok = a.eigvals.len() == b.eigvals.len() && a.rnorm.len() == b.rnorm.len();
            c.check(&format!("{}: lengths", nm), ok);
            if !ok {
                return;
            }
            set_scale::<A>(c, scale);
            for i in 0..a.eigvals.len() {
                A::claim_eq(c, &format!("{}: value {}", nm, i), a.eigvals[i], b.eigvals[i]);
                A::claim_eq(c, &format!("{}: residual {}", nm, i), a.rnorm[i], b.rnorm[i]);
            }
            eq_mat(c, &format!("{}: vectors", nm), &a.eigvecs, &b.eigvecs);
            c.scale = 1.0;
        }
        _ => c.check(&format!("{}: both have a result", nm), false),
    }
}
/// what the builder is told is what the eigensolver gets
#[derive(Clone, Copy)]
struct B {
    n: usize,
    k: usize,
    p: usize,
    pre: bool,
    prec: Option<f32>,
    maxiter: Option<usize>,
    rev: bool,
}
const DRAWS: [f64; 16] = [0.5, 0.25, 0.125, 0.75, 0.625, 0.0, 0.875, 0.375, 0.25, 0.5, 0.75, 0.125, 0.0, 0.25, 0.5, 0.625];
fn builder<A: Scalar>(c: &mut Ctx, b: B, largest: bool) {
    let a: Array2<A> = if b.n == 2 && b.k == 1 {
        symm(c, "a", 2)
    } else {
        let mut a = from_lower(&fixed::<A>(b.n, b.n, 17));
        a[(0, 0)] = A::input(c, "a0");
        a
    };
    for x in a.iter() {
        A::assume_sign(c, A::lit(1e3) - *x, ZERO | POS);
        A::assume_sign(c, A::lit(1e3) + *x, ZERO | POS);
    }
    let x = block::<A>(b.n, b.k, &DRAWS);
    let y = Array2::from_shape_fn((b.n, b.p), |(i, j)| A::lit([[2.0, 1.0], [1.0, -1.0], [2.0, 3.0], [-1.0, 1.0]][i][j]));
    let mut m = from_lower(&fixed::<A>(b.n, b.n, 5));
    for i in 0..b.n {
        m[(i, i)] = A::lit(5.0 + 3.0 * i as f64);
    }
    let mut t = TruncatedEig::new_with_rng(a.clone(), ord(largest), Script::new(&DRAWS));
    let steps = [0, 1, 2, 3];
    for s in if b.rev { [3, 2, 1, 0] } else { steps } {
        t = match s {
            0 if b.prec.is_some() => t.precision(b.prec.unwrap()),
            1 if b.maxiter.is_some() => t.maxiter(b.maxiter.unwrap()),
            2 if b.p > 0 => t.orthogonal_to(y.clone()),
            3 if b.pre => t.precondition_with(m.clone()),
            _ => t,
        };
    }
    let got = t.decompose(b.k);
    let want = lobpcg(
        |v| mm(&a, &v.to_owned()),
        x,
        |mut v| {
            if b.pre {
                let w = mm(&m, &v.to_owned());
                v.assign(&w)
            }
        },
        if b.p > 0 { Some(y.view()) } else { None },
        b.prec.unwrap_or(1e-5),
        b.maxiter.unwrap_or(2 * b.n),
        ord(largest),
    );
    same_res(c, "as the eigensolver", maxabs(&a), &got, &want);
    if b.p > 0 {
        let kept = t.constraints.clone();
        c.check("constraints kept", kept.is_some());
        eq_mat(c, "constraints", &kept.unwrap(), &y);
    }
}
fn empty<A: Scalar>(c: &mut Ctx, n: usize, largest: bool) {
    let a: Array2<A> = symm(c, "a", n);
    let mut t = TruncatedEig::new_with_rng(a, ord(largest), Script::new(&DRAWS));
    match t.decompose(0) {
        Ok(Lobpcg { eigvals, eigvecs, rnorm }) => c.check("empty", eigvals.is_empty() && eigvecs.is_empty() && rnorm.is_empty()),
        Err(_) => c.check("empty is no error", false),
    }
}
/// a step size of zero would never get anywhere: it is refused (panic or error)
fn zero_step<A: Scalar>(c: &mut Ctx, n: usize, largest: bool) {
    let a: Array2<A> = symm(c, "a", n);
    let t = TruncatedEig::new_with_rng(a, ord(largest), Script::new(&DRAWS));
    c.check("a step size of zero is refused", !matches!(guarded(|| t.into_iter_step_size(0).is_ok()), Ok(true)));
}
/// Runs the iterator to its end and checks all that was yielded: `e` is the spectrum left by the
/// constraints in the requested order.
fn history<A: Scalar>(c: &mut Ctx, a: &Array2<A>, y: Option<&Array2<A>>, e: &[A], draws: &[f64], step: usize, plain: bool, largest: bool) {
    let n = a.nrows();
    let mut t = TruncatedEig::new_with_rng(a.clone(), ord(largest), Script::new(draws)).precision(1e-4).maxiter(1);
    if let Some(y) = y {
        t = t.orthogonal_to(y.clone());
    }
    let mut it = if plain { t.into_iter() } else { t.into_iter_step_size(step).unwrap() };
    let mut all: Vec<Array1<A>> = vec![];
    let mut vals: Vec<A> = vec![];
    let mut r = 0;
    let total = e.len();
    while all.len() < total {
        let k = step.min(total - all.len());
        match it.next() {
            Some((l, v)) => {
                let ok = l.len() == k && v.dim() == (n, k);
                c.check(&format!("step {}: {} pairs", r, k), ok);
                if !ok {
                    return;
                }
                for j in 0..k {
                    vals.push(l[j]);
                    all.push(v.column(j).to_owned());
                }
            }
            None => {
                c.check(&format!("step {}: yields", r), false);
                return;
            }
        }
        r += 1;
    }
    c.check("ends when the space is exhausted", it.next().is_none());
    c.check("stays ended", it.next().is_none());
    let dot = |x: &Array1<A>, y: &Array1<A>| (0..n).fold(A::lit(0.0), |s, i| s + x[i] * y[i]);
    for i in 0..total {
        for j in 0..=i {
            A::claim_eq(c, &format!("v{}^T*v{}", i, j), dot(&all[i], &all[j]), A::lit(if i == j { 1.0 } else { 0.0 }));
        }
        if let Some(y) = y {
            set_scale::<A>(c, maxabs(y));
            for j in 0..y.ncols() {
                zero(c, &format!("y{}^T*v{}", j, i), dot(&y.column(j).to_owned(), &all[i]));
            }
            c.scale = 1.0;
        }
    }
    set_scale::<A>(c, maxabs(a));
    for i in 0..total {
        A::claim_eq(c, &format!("value {}", i), vals[i], e[i]);
        for p in 0..n {
            let s = (0..n).fold(A::lit(0.0), |s, q| s + a[(p, q)] * all[i][q]);
            A::claim_eq(c, &format!("A*v{}[{}]", i, p), s, vals[i] * all[i][p]);
        }
    }
    c.scale = 1.0;
}
/// chain of eigenvalues, in the requested order, gaps at least one
fn chain<A: Scalar>(c: &mut Ctx, k: usize, largest: bool) -> Vec<A> {
    let e: Vec<A> = (0..k).map(|i| A::input(c, &format!("l{}", i))).collect();
    for i in 1..k {
        let g = if largest { e[i - 1] - e[i] } else { e[i] - e[i - 1] };
        A::assume_sign(c, g - A::lit(1.0), ZERO | POS);
        A::assume_sign(c, A::lit(1e3) - g, ZERO | POS);
    }
    A::assume_sign(c, A::lit(1e3) - e[0], ZERO | POS);
    A::assume_sign(c, A::lit(1e3) + e[0], ZERO | POS);
    e
}
/// Diagonal operator up to a permutation, every eigenvalue symbolic; the start blocks hold each wanted
/// axis mixed with one further axis and with those found before.
fn axes<A: Scalar>(c: &mut Ctx, n: usize, p: usize, step: usize, plain: bool, perm: &[usize], largest: bool) {
    let e = chain::<A>(c, n - p, largest);
    let mut a = Array2::from_elem((n, n), A::lit(0.0));
    for i in 0..n {
        // constraints sit on the last axes, with eigenvalues beyond both ends
        a[(perm[i], perm[i])] = if i < n - p { e[i] } else { A::lit(if i % 2 == 0 { 1e4 } else { -1e4 }) };
    }
    let mut y = Array2::from_elem((n, p), A::lit(0.0));
    for j in 0..p {
        y[(perm[n - 1 - j], j)] = A::lit(2.0 + j as f64);
        if j > 0 {
            y[(perm[n - 1], j)] = A::lit(-1.0);
        }
    }
    let mut draws = vec![];
    let mut done = 0;
    while done < n - p {
        let k = step.min(n - p - done);
        // Coinciding Ritz values of the start are left out: natively rounding then mixes the vectors.
        let ritz: Vec<A> = (done..done + k).map(|i| if i + k < n - p { e[i] * A::frac(4, 5) + e[i + k] * A::frac(1, 5) } else { e[i] }).collect();
        for i in 0..k {
            for j in 0..i {
                let d = ritz[i] - ritz[j];
                A::assume_sign(c, d * d - A::frac(1, 100), ZERO | POS);
            }
        }
        let mut x = vec![0.0; n * k];
        for j in 0..k {
            x[perm[done + j] * k + j] = 0.5;
            // one more axis, disjoint per column
            if done + k + j < n - p {
                x[perm[done + k + j] * k + j] = 0.25;
            }
            // a part along what is excluded
            if done > 0 {
                x[perm[j % done] * k + j] += 0.125;
            }
            if p > 0 {
                x[perm[n - 1] * k + j] += 0.375;
            }
        }
        draws.extend(x);
        done += k;
    }
    history(c, &a, if p > 0 { Some(&y) } else { None }, &e, &draws, step, plain, largest);
}
/// A = l2 I + (l1-l2) u u^T, any start: one step per vector
fn two<A: Scalar>(c: &mut Ctx, u: &[i64], den: i64, mult: bool, largest: bool) {
    let n = u.len();
    let e = chain::<A>(c, 2, largest);
    // the single eigenvalue first, or the multiple one
    let (l1, l2) = if mult { (e[1], e[0]) } else { (e[0], e[1]) };
    let mut a = eye::<A>(n);
    for i in 0..n {
        for j in 0..n {
            let x = (l1 - l2) * A::frac(u[i] * u[j], den * den);
            a[(i, j)] = if i == j { x + l2 } else { x };
        }
    }
    let s: Vec<A> = (0..n).map(|i| if i == 0 || mult && i + 1 < n { e[0] } else { e[1] }).collect();
    let mut draws = vec![];
    for t in 0..n {
        for i in 0..n {
            draws.push(if i == t { 0.5 } else if (i + t) % 3 == 0 { 0.25 } else { 0.0 });
        }
    }
    history(c, &a, None, &s, &draws, 1, true, largest);
}
/// a block whose residual is above 0.1 ends the iteration, others are yielded
fn gate<A: Scalar>(c: &mut Ctx, largest: bool) {
    let a: Array2<A> = symm(c, "a", 2);
    for x in a.iter() {
        A::assume_sign(c, A::lit(1e3) - *x, ZERO | POS);
        A::assume_sign(c, A::lit(1e3) + *x, ZERO | POS);
    }
    let t = TruncatedEig::new_with_rng(a.clone(), ord(largest), Script::new(&[0.75, 0.5])).maxiter(0);
    let mut it = t.into_iter();
    // start (3, 2)/sqrt(13)
    let (x, y) = (A::lit(3.0), A::lit(2.0));
    let d = A::lit(13.0);
    let av = [a[(0, 0)] * x + a[(0, 1)] * y, a[(1, 0)] * x + a[(1, 1)] * y];
    let l = (av[0] * x + av[1] * y) / d;
    let r = [av[0] - l * x, av[1] - l * y];
    let r2 = (r[0] * r[0] + r[1] * r[1]) / d;
    let lim = A::lit(0.1) * A::lit(0.1);
    match it.next() {
        Some((e, v)) => {
            c.check("one pair", e.len() == 1 && v.dim() == (2, 1));
            set_scale::<A>(c, maxabs(&a));
            A::claim_eq(c, "value", e[0], l);
            c.scale = 1.0;
            A::claim_sign(c, "yielded only when converged", lim - r2, ZERO | POS);
        }
        None => A::claim_sign(c, "ends only when not converged", r2 - lim, ZERO | POS),
    }
}
/// single step sizes and the plain iterator agree
fn forms<A: Scalar>(c: &mut Ctx, largest: bool) {
    let e = chain::<A>(c, 2, largest);
    let q: Array2<A> = orth(2, 0);
    let a = mm(&mm(&q, &diag(&e)), &tr(&q));
    for (plain, step) in [(true, 1), (false, 1), (false, 2), (false, 7)] {
        let total = [0.75, 0.125, 0.5, 0.25];
        history(c, &a, None, &e, &total, step.min(2), plain, largest);
    }
}

pub fn jobs(t: bool) -> Vec<Job> {
    let mut v = vec![];
    for lg in [true, false] {
        let o = if lg { "max" } else { "min" };
        let base = B { n: 2, k: 1, p: 0, pre: false, prec: None, maxiter: None, rev: false };
        let mut list = vec![];
        for (n, k, p) in [(2, 1, 0), (3, 1, 0), (3, 1, 1), (3, 2, 0), (4, 2, 1)] {
            for maxiter in [Some(0), Some(1)] {
                for prec in [None, Some(0.5), Some(50.0)] {
                    for pre in [false, true] {
                        if maxiter == Some(if k == 2 { 1 } else { 0 }) && (k == 2 || pre || prec.is_some()) || k == 2 && (pre || prec.is_some()) {
                            continue;
                        }
                        list.push(B { n, k, p, pre, prec, maxiter, rev: (n + p) % 2 == 0 });
                    }
                }
            }
        }
        list.push(base);
        list.push(B { prec: Some(0.25), ..base });
        for b in list {
            let nm = format!(
                "builder-{}-{}x{}-y{}-{}{}{}",
                o,
                b.n,
                b.k,
                b.p,
                if b.pre { "pre" } else { "id" },
                b.prec.map_or("".into(), |x| format!("-tol{}", x)),
                b.maxiter.map_or("".into(), |x| format!("-cap{}", x))
            );
            job!(v, nm, |c, A| builder::<A>(c, b, lg)).desc("builder against a direct call of the eigensolver, operator symbolic");
        }
        for n in 0..4 {
            job!(v, format!("zero-step-{}-{}", o, n), |c, A| zero_step::<A>(c, n, lg)).desc("step size zero, operator symbolic");
            job!(v, format!("empty-{}-{}", o, n), |c, A| empty::<A>(c, n, lg)).desc("no pair requested, operator symbolic");
        }
        for (n, perm) in [(1, &[0][..]), (2, &[1, 0]), (3, &[2, 0, 1]), (4, &[1, 3, 0, 2]), (5, &[4, 1, 3, 0, 2]), (7, &[3, 6, 1, 5, 0, 4, 2]), (8, &[3, 7, 6, 1, 5, 0, 4, 2])] {
            for p in 0..n {
                for step in 1..=n - p {
                    if p > 2 || (n == 5 && !t && (step > 2 || p > 1)) || n > 5 && (step + p != 3 || step == 1) {
                        continue;
                    }
                    for plain in if step == 1 { vec![true, false] } else { vec![false] } {
                        job!(v, format!("axes-{}-{}-y{}-s{}{}", o, n, p, step, if plain { "-iter" } else { "" }), |c, A| axes::<A>(c, n, p, step, plain, perm, lg))
                            .desc("permuted diagonal operator, every free eigenvalue symbolic: dimension, constraints, step size");
                    }
                }
            }
        }
        for (u, d) in [(&[3i64, 4][..], 5), (&[1, 2, 2], 3), (&[2, 3, 6], 7)] {
            for mult in [false, true] {
                job!(v, format!("two-{}-{}-{}", o, u.len(), if mult { "multiple" } else { "single" }) + &format!("-d{}", d), |c, A| two::<A>(c, u, d, mult, lg))
                    .desc("dense operator with two distinct symbolic eigenvalues, one vector per step");
            }
        }
        job!(v, format!("gate-{}", o), |c, A| gate::<A>(c, lg)).desc("n=2, operator symbolic, no step: convergence gate of the iterator");
        job!(v, format!("forms-{}", o), |c, A| forms::<A>(c, lg)).desc("n=2 dense, both eigenvalues symbolic, step sizes 1, 2 and above");
    }
    v
}
