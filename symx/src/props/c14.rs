use super::util::*;
use crate::ctx::*;
use crate::engine::{POS, ZERO};
use crate::job;
use linfa_linalg::lobpcg::{lobpcg, Lobpcg, LobpcgResult};
use linfa_linalg::{LinalgError, Order};
use ndarray::prelude::*;
use std::cell::Cell;

pub fn ord(largest: bool) -> Order {
    if largest {
        Order::Largest
    } else {
        Order::Smallest
    }
}
/// orthonormal vectors, Rayleigh quotients, decoupled, ordered, true residuals
pub fn ritz<A: Scalar>(c: &mut Ctx, nm: &str, a: &Array2<A>, r: &Lobpcg<A>, k: usize, largest: bool) -> bool {
    ritz_in(c, nm, a, None, r, k, largest)
}
/// the same for the problem restricted to the complement of y's columns (at most two)
pub fn ritz_in<A: Scalar>(c: &mut Ctx, nm: &str, a: &Array2<A>, y: Option<&Array2<A>>, r: &Lobpcg<A>, k: usize, largest: bool) -> bool {
    let n = a.nrows();
    let (v, l, rn) = (&r.eigvecs, &r.eigvals, &r.rnorm);
    let ok = v.dim() == (n, k) && l.len() == k && rn.len() == k;
    c.check(&format!("{}: shapes", nm), ok);
    if !ok {
        return false;
    }
    let v = v.to_owned();
    orthonormal(c, &format!("{}: V", nm), &v);
    let av = mm(a, &v);
    let h = mm(&tr(&v), &av);
    set_scale::<A>(c, maxabs(a));
    for i in 0..k {
        A::claim_eq(c, &format!("{}: Rayleigh quotient {}", nm, i), h[(i, i)], l[i]);
        for j in 0..i {
            zero(c, &format!("{}: v{}^T*A*v{}", nm, i, j), h[(i, j)]);
        }
        if i > 0 {
            let d = if largest { l[i - 1] - l[i] } else { l[i] - l[i - 1] };
            A::claim_sign(c, &format!("{}: order at {}", nm, i), d, ZERO | POS);
        }
        nonneg(c, &format!("{}: residual {} not negative", nm, i), rn[i]);
    }
    let one = A::lit(1.0);
    // Gram determinant of the constraints and its adjugate
    let (g, adj) = match y {
        None => (one, eye::<A>(0)),
        Some(y) => {
            let g = mm(&tr(y), y);
            match y.ncols() {
                1 => (g[(0, 0)], eye::<A>(1)),
                _ => {
                    let o = A::lit(0.0) - g[(0, 1)];
                    let adj = arr2(&[[g[(1, 1)], o], [o, g[(0, 0)]]]);
                    (det(&g), adj)
                }
            }
        }
    };
    set_scale::<A>(c, maxabs(a).powi(2) * g.approx().abs());
    for i in 0..k {
        let d: Vec<A> = (0..n).map(|j| av[(j, i)] - l[i] * v[(j, i)]).collect();
        let mut s = d.iter().fold(A::lit(0.0), |s, &x| s + x * x) * g;
        if let Some(y) = y {
            // without the part along the constraints
            let w: Vec<A> = (0..y.ncols()).map(|q| (0..n).fold(A::lit(0.0), |s, j| s + y[(j, q)] * d[j])).collect();
            for p in 0..w.len() {
                for q in 0..w.len() {
                    s = s - w[p] * adj[(p, q)] * w[q];
                }
            }
        }
        A::claim_eq(c, &format!("{}: residual {} squared", nm, i), rn[i] * rn[i] * g, s);
    }
    c.scale = 1.0;
    true
}
/// how often the preconditioner may be asked
pub struct Run<A> {
    pub res: LobpcgResult<A>,
    pub iters: usize,
}
pub fn run<A: Scalar>(a: &Array2<A>, x: &Array2<A>, pre: &dyn Fn(usize, ArrayViewMut2<A>), y: Option<ArrayView2<A>>, tol: f32, maxiter: usize, largest: bool) -> Run<A> {
    let n = Cell::new(0usize);
    let res = lobpcg(
        |v| mm(a, &v.to_owned()),
        x.clone(),
        |v| {
            pre(n.get(), v);
            n.set(n.get() + 1)
        },
        y,
        tol,
        maxiter,
        ord(largest),
    );
    Run { res, iters: n.get() }
}
pub fn best<A: Clone>(r: &LobpcgResult<A>) -> Option<&Lobpcg<A>> {
    match r {
        Ok(r) => Some(r),
        Err((_, r)) => r.as_ref(),
    }
}
/// the iterate before any step, at every order
fn init<A: Scalar>(c: &mut Ctx, n: usize, k: usize, fixed_x: bool, largest: bool) {
    let a: Array2<A> = if k == 2 && n > 2 {
        // fixed off the diagonal
        let mut a: Array2<A> = fixed(n, n, 21);
        a = from_lower(&a);
        a[(0, 0)] = A::input(c, "a0");
        a[(n - 1, n - 1)] = A::input(c, "a1");
        a
    } else {
        symm(c, "a", n)
    };
    let x: Array2<A> = if fixed_x { start(c, n, k) } else { mat(c, "x", n, k) };
    if !A::SYM {
        // rounding decides near rank deficiency: outside the encoding
        let g = mm(&tr(&x), &x);
        let d = (0..k).map(|i| g[(i, i)].approx()).product::<f64>();
        if det(&g).approx() < 1e-9 * d {
            return;
        }
    }
    initial(c, &a, &x, largest);
}
/// start block with fixed entries and one scale and one mixing symbol
fn start<A: Scalar>(_c: &mut Ctx, n: usize, k: usize) -> Array2<A> {
    let mut m = Array2::from_elem((n, k), A::lit(0.0));
    for j in 0..k {
        m[(j, j)] = A::lit(2.0 + j as f64);
        if j + 1 < n {
            m[(j + 1, j)] = A::lit(1.0);
        }
    }
    m
}
fn initial<A: Scalar>(c: &mut Ctx, a: &Array2<A>, x: &Array2<A>, largest: bool) {
    let (n, k) = x.dim();
    let g = det(&mm(&tr(x), x));
    let r = run(a, x, &|_, _| (), None, 1e-3, 0, largest);
    c.check("no step was asked for", r.iters == 0);
    match (&r.res, best(&r.res)) {
        (Ok(_), Some(b)) => {
            ritz(c, "initial", a, b, k, largest);
            // the values are the Ritz values of the block: sum and product
            let (q, _) = gs(x);
            let h = mm(&mm(&tr(&q), a), &q);
            set_scale::<A>(c, maxabs(a));
            let t = (0..k).fold(A::lit(0.0), |s, i| s + h[(i, i)]);
            let l = (0..k).fold(A::lit(0.0), |s, i| s + b.eigvals[i]);
            A::claim_eq(c, "sum of the Ritz values", l, t);
            // the vectors lie in the span of the block
            let p = mm(&q, &mm(&tr(&q), &b.eigvecs));
            eq_mat(c, "in the span of the start block", &p, &b.eigvecs);
            c.scale = 1.0;
            let _ = n;
        }
        (Err((LinalgError::NotPositiveDefinite, None)), _) => A::claim_sign(c, "fails only when rank deficient", if A::SYM { g } else { A::lit(0.0) }, ZERO),
        _ => c.check("result or error", false),
    }
}
/// Gram-Schmidt (oracle)
fn gs<A: Scalar>(x: &Array2<A>) -> (Array2<A>, usize) {
    let (n, k) = x.dim();
    let mut q = Array2::from_elem((n, k), A::lit(0.0));
    for j in 0..k {
        let mut w: Vec<A> = (0..n).map(|i| x[(i, j)]).collect();
        for p in 0..j {
            let d = (0..n).fold(A::lit(0.0), |s, i| s + q[(i, p)] * x[(i, j)]);
            for i in 0..n {
                w[i] = w[i] - d * q[(i, p)];
            }
        }
        let s = w.iter().fold(A::lit(0.0), |s, &x| s + x * x).sqrt();
        for i in 0..n {
            q[(i, j)] = w[i] / s;
        }
    }
    (q, k)
}
/// n=2, one vector: after one step the extreme eigenpair of A = Q diag(l) Q^T
fn plane<A: Scalar>(c: &mut Ctx, w: usize, pre: usize, maxiter: usize, largest: bool) {
    let l0 = A::input(c, "l0");
    let l1 = A::input(c, "l1");
    let q: Array2<A> = orth(2, w);
    let a = mm(&mm(&q, &diag(&[l0, l1])), &tr(&q));
    let t = A::input(c, "t");
    let x = Array2::from_shape_vec((2, 1), vec![t, A::lit(1.0)]).unwrap();
    steps(c, &a, &x, pre, maxiter, largest, Some([l0, l1].to_vec()), 1e-3);
}
fn precond<A: Scalar>(kind: usize) -> Box<dyn Fn(usize, ArrayViewMut2<A>)> {
    match kind {
        0 => Box::new(|_, _| ()),
        1 => Box::new(|_, mut v| {
            for i in 0..v.nrows() {
                let d = A::frac(1, i as i64 + 2);
                for j in 0..v.ncols() {
                    v[(i, j)] = v[(i, j)] * d;
                }
            }
        }),
        _ => Box::new(|_, mut v| {
            for x in v.iter_mut() {
                *x = *x * A::lit(-3.0);
            }
        }),
    }
}
fn steps<A: Scalar>(c: &mut Ctx, a: &Array2<A>, x: &Array2<A>, pre: usize, maxiter: usize, largest: bool, eig: Option<Vec<A>>, tol: f32) {
    let (n, k) = x.dim();
    let p = precond::<A>(pre);
    let r0 = run(a, x, &*p, None, tol, 0, largest);
    let b0 = match best(&r0.res) {
        Some(b) => b,
        None => {
            c.check("rank-deficient start", matches!(r0.res, Err((LinalgError::NotPositiveDefinite, None))));
            return;
        }
    };
    let r = run(a, x, &*p, None, tol, maxiter, largest);
    c.check("iteration cap", r.iters <= maxiter.min(10 * n));
    let b = match best(&r.res) {
        Some(b) => b,
        None => {
            c.check("has a best result", false);
            return;
        }
    };
    if !ritz(c, "result", a, b, k, largest) {
        return;
    }
    set_scale::<A>(c, maxabs(a));
    let (s0, s1) = (b0.rnorm.iter().fold(A::lit(0.0), |s, &x| s + x), b.rnorm.iter().fold(A::lit(0.0), |s, &x| s + x));
    A::claim_sign(c, "not worse than the initial iterate", s0 - s1, ZERO | POS);
    if let Some(e) = eig {
        if r.res.is_ok() {
            // the vector iterated is an eigenvector up to the tolerance: residual small unless the cap was hit
            let tolv = A::lit(tol as f64) + if A::SYM { A::lit(0.0) } else { A::lit(1e-9) };
            if r.iters < maxiter || n == 2 {
                for i in 0..k {
                    A::claim_sign(c, &format!("residual {} within tolerance", i), tolv - b.rnorm[i], ZERO | POS);
                }
            }
            if n == 2 && r.iters > 0 {
                // one step spans the plane: the extreme eigenvalue
                let (x, y) = (e[0], e[1]);
                let m = if (x > y) == largest { x } else { y };
                A::claim_eq(c, "extreme eigenvalue", b.eigvals[0], m);
            }
        }
    }
    c.scale = 1.0;
}
/// Two distinct eigenvalues, A = l2 I + (l1-l2) v v^T with a fixed unit v: the second step uses the
/// conjugate block. The first preconditioned residual is projected on the second axis.
fn conjugate<A: Scalar>(c: &mut Ctx, v: [i64; 4], maxiter: usize, largest: bool) {
    let l1 = A::input(c, "l1");
    let l2 = A::input(c, "l2");
    let gap = if largest { l1 - l2 } else { l2 - l1 };
    A::assume_sign(c, gap - A::lit(1.0), ZERO | POS);
    A::assume_sign(c, A::lit(1e3) - gap, ZERO | POS);
    A::assume_sign(c, A::lit(1e3) - l2, ZERO | POS);
    A::assume_sign(c, A::lit(1e3) + l2, ZERO | POS);
    let u: Vec<A> = (0..3).map(|i| A::frac(v[i], v[3])).collect();
    let mut a = eye::<A>(3);
    for i in 0..3 {
        for j in 0..3 {
            a[(i, j)] = (l1 - l2) * (u[i] * u[j]);
            if i == j {
                a[(i, j)] = a[(i, j)] + l2;
            }
        }
    }
    let x = Array2::from_shape_vec((3, 1), vec![A::lit(2.0), A::lit(0.0), A::lit(0.0)]).unwrap();
    let pre = |k: usize, mut w: ArrayViewMut2<A>| {
        if k == 0 {
            w[(2, 0)] = A::lit(0.0);
        }
    };
    let r = run(&a, &x, &pre, None, 1e-3, maxiter, largest);
    c.check("iteration cap", r.iters <= maxiter);
    let b = match best(&r.res) {
        Some(b) => b,
        None => {
            c.check("has a best result", false);
            return;
        }
    };
    ritz(c, "result", &a, b, 1, largest);
    if maxiter >= 2 {
        set_scale::<A>(c, maxabs(&a));
        A::claim_eq(c, "extreme eigenvalue", b.eigvals[0], l1);
        for i in 0..3 {
            A::claim_eq(c, &format!("eigenvector {}", i), b.eigvecs[(i, 0)] * b.eigvecs[(i, 0)], u[i] * u[i]);
        }
        c.scale = 1.0;
    }
}
/// Block of two: the first vector starts as an exact eigenvector and stays inactive, the second goes
/// through steps with its own residual and conjugate directions.
fn masked<A: Scalar>(c: &mut Ctx, v: [i64; 4], maxiter: usize, largest: bool, first: bool) {
    let l0 = A::input(c, "l0");
    let l1 = A::input(c, "l1");
    let l2 = A::input(c, "l2");
    let sg = |x: A| if largest { x } else { A::lit(0.0) - x };
    // l0 beyond l1, or between l2's side and below the Ritz values of the second vector
    let d = if first { sg(l0 - l1) } else { sg(l2 - l0) };
    for g in [d, sg(l1 - l2)] {
        A::assume_sign(c, g - A::lit(1.0), ZERO | POS);
        A::assume_sign(c, A::lit(1e3) - g, ZERO | POS);
    }
    A::assume_sign(c, A::lit(1e3) - l2, ZERO | POS);
    A::assume_sign(c, A::lit(1e3) + l2, ZERO | POS);
    let u: Vec<A> = (0..3).map(|i| A::frac(v[i], v[3])).collect();
    let mut a = Array2::from_elem((4, 4), A::lit(0.0));
    a[(0, 0)] = l0;
    for i in 0..3 {
        for j in 0..3 {
            let x = (l1 - l2) * (u[i] * u[j]);
            a[(i + 1, j + 1)] = if i == j { x + l2 } else { x };
        }
    }
    let mut x = Array2::from_elem((4, 2), A::lit(0.0));
    let (p, q) = if first { (0, 1) } else { (1, 0) };
    x[(0, p)] = A::lit(2.0);
    x[(1, q)] = A::lit(-3.0);
    let pre = |k: usize, mut w: ArrayViewMut2<A>| {
        if k == 0 {
            for j in 0..w.ncols() {
                w[(3, j)] = A::lit(0.0);
            }
        }
    };
    let r = run(&a, &x, &pre, None, 1e-3, maxiter, largest);
    c.check("iteration cap", r.iters <= maxiter);
    let b = match best(&r.res) {
        Some(b) => b,
        None => {
            c.check("has a best result", false);
            return;
        }
    };
    ritz(c, "result", &a, b, 2, largest);
    if maxiter >= 2 && first {
        set_scale::<A>(c, maxabs(&a));
        A::claim_eq(c, "first eigenvalue", b.eigvals[0], l0);
        A::claim_eq(c, "second eigenvalue", b.eigvals[1], l1);
        c.scale = 1.0;
    }
}
fn errors<A: Scalar>(c: &mut Ctx) {
    for n in 1..5 {
        let a: Array2<A> = eye(n);
        for k in 0..6 {
            let x: Array2<A> = fixed(n, k, 9);
            if k > n {
                let r = run(&a, &x, &|_, _| (), None, 1e-3, 3, true);
                c.check(
                    &format!("{} vectors in dimension {}", k, n),
                    matches!(r.res, Err((LinalgError::NotThin { rows, cols }, None)) if rows == n && cols == k),
                );
            }
        }
        // rank deficient: a zero column
        for k in 1..=n {
            let mut x: Array2<A> = eye::<A>(n).slice(s![.., ..k]).to_owned();
            x.column_mut(k - 1).fill(A::lit(0.0));
            let r = run(&a, &x, &|_, _| (), None, 1e-3, 3, true);
            c.check(&format!("zero column {} of {}", k, n), matches!(r.res, Err((LinalgError::NotPositiveDefinite, None))));
        }
    }
}
/// linearly dependent start: column 1 a symbolic multiple of column 0
fn deficient<A: Scalar>(c: &mut Ctx, n: usize) {
    let a: Array2<A> = eye(n);
    let s = A::input(c, "s");
    let mut x = Array2::from_elem((n, 2), A::lit(0.0));
    for i in 0..n {
        x[(i, 0)] = A::input(c, &format!("x{}", i));
        x[(i, 1)] = s * x[(i, 0)];
    }
    let r = run(&a, &x, &|_, _| (), None, 1e-3, 2, true);
    c.check("error", matches!(r.res, Err((LinalgError::NotPositiveDefinite, None))));
}

/// Block of two whose preconditioned residuals lie along one direction: the step is taken in the
/// trial space they span.
fn dependent<A: Scalar>(c: &mut Ctx, kind: usize, largest: bool) {
    let a0 = A::input(c, "a");
    let p = A::input(c, "p");
    let q = A::input(c, "q");
    A::assume_sign(c, p * p - A::lit(4.0), ZERO | POS);
    A::assume_sign(c, q * q - A::lit(0.0625), ZERO | POS);
    for x in [p, q, a0] {
        A::assume_sign(c, A::lit(1e4) - x * x, ZERO | POS);
    }
    let z = A::lit(0.0);
    let sg = A::lit(if largest { 1.0 } else { -1.0 });
    let (b0, c0) = (a0 - sg * A::lit(2.0), a0 - sg * A::lit(1.0));
    let a = arr2(&[[a0, z, p, z], [z, b0, z, q], [p, z, c0, z], [z, q, z, A::lit(3.0)]]);
    let x = eye::<A>(4).slice(s![.., ..2]).to_owned();
    let pre = |_: usize, mut w: ArrayViewMut2<A>| {
        for j in 0..w.ncols() {
            for i in 0..4 {
                w[(i, j)] = A::lit(if i == 2 { [[1.0, 1.0], [-2.0, 3.0], [0.0, 1.0]][kind][j] } else { 0.0 });
            }
        }
    };
    let r = run(&a, &x, &pre, None, 1e-3, 1, largest);
    c.check("steps", r.iters == 1);
    match &r.res {
        Ok(r) => {
            ritz(c, "result", &a, r, 2, largest);
            set_scale::<A>(c, maxabs(&a).powi(2));
            let l = r.eigvals[0];
            A::claim_eq(c, "root of the characteristic polynomial", (l - a0) * (l - c0), p * p);
            A::claim_sign(c, "extreme one", (l - a0) * sg, ZERO | POS);
            c.scale = 1.0;
            set_scale::<A>(c, maxabs(&a));
            A::claim_eq(c, "second value", r.eigvals[1], b0);
            c.scale = 1.0;
        }
        Err(_) => c.check("takes the step", false),
    }
}
/// Blocks which are large for the dimension: residual and conjugate directions become linearly
/// dependent up to rounding, which exact arithmetic does not show, so this runs on the compiled code
/// only.
fn crowded<A: Scalar>(c: &mut Ctx, n: usize, k: usize, largest: bool) {
    c.check("reached", true);
    if A::SYM {
        return;
    }
    let mut a = Array2::<A>::zeros((n, n));
    for i in 0..n {
        a[(i, i)] = A::lit((i + 1) as f64);
    }
    for seed in 0..60 {
        let mut x = Array2::<A>::zeros((n, k));
        let mut s: u64 = seed * 977 + 13;
        for v in x.iter_mut() {
            s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            *v = A::lit((s >> 11) as f64 / (1u64 << 53) as f64 * 2.0 - 1.0);
        }
        let r = run(&a, &x, &|_, _| (), None, 1e-5, 100, largest);
        if let Some(b) = best(&r.res) {
            ritz(c, "result", &a, b, k, largest);
        }
        if let Ok(b) = &r.res {
            set_scale::<A>(c, n as f64);
            for i in 0..k {
                let e = if largest { n - i } else { i + 1 };
                A::claim_eq(c, &format!("eigenvalue {}", i), b.eigvals[i], A::lit(e as f64));
            }
            c.scale = 1.0;
        }
        c.check("converges", r.res.is_ok());
    }
}

pub fn jobs(t: bool) -> Vec<Job> {
    let mut v = vec![];
    for lg in [true, false] {
        let o = if lg { "max" } else { "min" };
        for n in 1..=if t { 5 } else { 4 } {
            job!(v, format!("init-{}-{}x1", o, n), |c, A| init::<A>(c, n, 1, n > 3, lg)).desc("operator symbolic, start vector symbolic (n <= 3), no step");
        }
        for (n, f) in [(2, false), (2, true), (3, true), (4, true)] {
            job!(v, format!("init-{}-{}x2-{}", o, n, f as u8), |c, A| init::<A>(c, n, 2, f, lg)).desc("operator symbolic, start block symbolic (0) or fixed (1), no step");
        }
        for w in [0, 8] {
            for pre in 0..3 {
                for mi in 1..=if t { 3 } else { 2 } {
                    job!(v, format!("plane-{}-q{}-m{}-{}", o, w, pre, mi), |c, A| plane::<A>(c, w, pre, mi, lg)).desc("n=2, both eigenvalues and the start symbolic, one step or more");
                }
            }
        }
        for (i, vv) in [[3, 4, 12, 13], [-4, 3, 12, 13], [5, -12, 84, 85], [12, 5, -84, 85]].into_iter().enumerate() {
            for mi in 1..=3 {
                job!(v, format!("conjugate-{}-{}-{}", o, i, mi), |c, A| conjugate::<A>(c, vv, mi, lg)).desc("n=3, two symbolic eigenvalues, the second step uses the conjugate block");
            }
        }
    }
    for lg in [true, false] {
        for (i, vv) in [[3, 4, 12, 13], [-4, 3, 12, 13]].into_iter().enumerate() {
            for mi in 1..=3 {
                for first in [true, false] {
                    if mi > 1 && !first {
                        continue;
                    }
                    job!(v, format!("masked-{}-{}-{}-{}", if lg { "max" } else { "min" }, i, mi, first as u8), |c, A| masked::<A>(c, vv, mi, lg, first))
                        .desc("n=4, block of two, one vector converged from the start, three symbolic eigenvalues");
                }
            }
        }
    }
    for lg in [true, false] {
        let o = if lg { "max" } else { "min" };
        for k in 0..3 {
            job!(v, format!("dependent-{}-{}", o, k), |c, A| dependent::<A>(c, k, lg)).desc("n=4, block of two with linearly dependent preconditioned residuals, three symbolic entries");
        }
        for (n, k) in [(3, 2), (4, 3), (5, 2), (5, 3), (5, 4), (8, 3)] {
            job!(v, format!("crowded-{}-{}-{}", o, n, k), |c, A| crowded::<A>(c, n, k, lg)).desc("concrete starts, compiled code only (regression of a repaired defect)");
        }
    }
    job!(v, "errors", |c, A| errors::<A>(c)).desc("blocks too wide or with a zero column");
    for n in 2..4 {
        job!(v, format!("deficient-{}", n), |c, A| deficient::<A>(c, n)).desc("start columns symbolic and linearly dependent");
    }
    v
}
