use super::c14::{best, ritz_in, run};
use super::util::*;
use crate::ctx::*;
use crate::engine::{POS, ZERO};
use crate::job;
use linfa_linalg::lobpcg::Lobpcg;
use linfa_linalg::LinalgError;
use ndarray::prelude::*;

/// full rank; natively well enough conditioned for the comparison to mean anything
fn full_rank<A: Scalar>(m: &Array2<A>) -> bool {
    let g = mm(&tr(m), m);
    let d: f64 = (0..m.ncols()).map(|i| g[(i, i)].approx()).product();
    A::SYM || det(&g).approx() > 1e-6 * d
}
fn assume_rank<A: Scalar>(c: &mut Ctx, m: &Array2<A>) {
    let g = mm(&tr(m), m);
    A::assume_sign(c, det(&g), POS);
}
fn ortho<A: Scalar>(c: &mut Ctx, nm: &str, y: &Array2<A>, r: &Lobpcg<A>) {
    let p = mm(&tr(y), &r.eigvecs);
    set_scale::<A>(c, maxabs(y));
    for i in 0..p.nrows() {
        for j in 0..p.ncols() {
            zero(c, &format!("{}: y{}^T*v{}", nm, i, j), p[(i, j)]);
        }
    }
    c.scale = 1.0;
}
fn same<A: Scalar>(c: &mut Ctx, nm: &str, a: &Array2<A>, p: &Lobpcg<A>, q: &Lobpcg<A>) {
    let k = p.eigvals.len();
    c.check(&format!("{}: shapes", nm), q.eigvals.len() == k && q.eigvecs.dim() == p.eigvecs.dim());
    set_scale::<A>(c, maxabs(a));
    for i in 0..k {
        A::claim_eq(c, &format!("{}: value {}", nm, i), p.eigvals[i], q.eigvals[i]);
    }
    // up to sign: same projector per vector
    c.scale = 1.0;
    for i in 0..k {
        for a in 0..p.eigvecs.nrows() {
            for b in 0..=a {
                let x = p.eigvecs[(a, i)] * p.eigvecs[(b, i)];
                let y = q.eigvecs[(a, i)] * q.eigvecs[(b, i)];
                A::claim_eq(c, &format!("{}: vector {} [{},{}]", nm, i, a, b), x, y);
            }
        }
    }
}
/// what the symbols of the constraint block are
fn block<A: Scalar>(c: &mut Ctx, n: usize, p: usize, sym: u32) -> Array2<A> {
    let base = [[2.0, 1.0], [1.0, -1.0], [2.0, 3.0], [-1.0, 1.0]];
    let mut y = Array2::from_elem((n, p), A::lit(0.0));
    for i in 0..n {
        for j in 0..p {
            y[(i, j)] = if sym >> (i * p + j) & 1 == 1 { A::input(c, &format!("y{}{}", i, j)) } else { A::lit(base[i][j]) };
        }
    }
    y
}
fn operator<A: Scalar>(c: &mut Ctx, n: usize, free: usize) -> Array2<A> {
    let f: Array2<A> = fixed(n, n, 17);
    let mut a = from_lower(&f);
    for i in 0..free {
        a[(i, i)] = A::input(c, &format!("a{}", i));
    }
    a
}
/// no step: the start vector is projected and gives a Ritz pair in the complement
fn init<A: Scalar>(c: &mut Ctx, n: usize, p: usize, k: usize, ysym: u32, xsym: bool, free: usize, largest: bool) {
    let y = block::<A>(c, n, p, ysym);
    let a = operator::<A>(c, n, free);
    let mut x = Array2::from_elem((n, k), A::lit(0.0));
    for i in 0..n {
        for j in 0..k {
            x[(i, j)] = if xsym { A::input(c, &format!("x{}{}", i, j)) } else { A::lit([[1.0, 0.0], [2.0, 1.0], [1.0, 3.0], [0.5, 2.0]][i][j]) };
        }
    }
    assume_rank(c, &y);
    let mut yx = Array2::from_elem((n, p + k), A::lit(0.0));
    yx.slice_mut(s![.., ..p]).assign(&y);
    yx.slice_mut(s![.., p..]).assign(&x);
    if !full_rank(&y) || !full_rank(&yx) {
        return;
    }
    let r = run(&a, &x, &|_, _| (), Some(y.view()), 1e-3, 0, largest);
    match (&r.res, best(&r.res)) {
        (Ok(_), Some(b)) => {
            if ritz_in(c, "initial", &a, Some(&y), b, k, largest) {
                ortho(c, "initial", &y, b);
                if p + k == n && k == 1 {
                    // the complement is a line: its projector is known
                    let q = det(&mm(&tr(&y), &y));
                    let cr: Vec<A> = match n {
                        2 => vec![A::lit(0.0) - y[(1, 0)], y[(0, 0)]],
                        _ => (0..3)
                            .map(|i| {
                                let (s, t) = ((i + 1) % 3, (i + 2) % 3);
                                y[(s, 0)] * y[(t, 1)] - y[(t, 0)] * y[(s, 1)]
                            })
                            .collect(),
                    };
                    let mut h = A::lit(0.0);
                    for i in 0..n {
                        for j in 0..n {
                            h = h + cr[i] * a[(i, j)] * cr[j];
                        }
                    }
                    set_scale::<A>(c, maxabs(&a));
                    A::claim_eq(c, "the only value", b.eigvals[0], h / q);
                    c.scale = 1.0;
                }
            }
        }
        (Err((LinalgError::NotPositiveDefinite, None)), _) => {
            let g = mm(&tr(&yx), &yx);
            A::claim_sign(c, "fails only when the start lies in the constraints", det(&g), ZERO)
        }
        _ => c.check("result or error", false),
    }
}
/// another basis of the same constraints: y*m
fn basis<A: Scalar>(c: &mut Ctx, n: usize, p: usize, k: usize, maxiter: usize, kind: usize, largest: bool) {
    let y = block::<A>(c, n, p, 0);
    let a = operator::<A>(c, n, 1);
    let x = Array2::from_shape_fn((n, k), |(i, j)| A::lit([[1.0, 0.0], [2.0, 1.0], [1.0, 3.0], [0.5, 2.0]][i][j]));
    let mut m = eye::<A>(p);
    let s = A::input(c, "s");
    let away = s * s - A::frac(1, 100);
    match kind {
        0 => {
            // scaled
            A::assume_sign(c, away, POS);
            for i in 0..p {
                m[(i, i)] = s;
            }
        }
        1 => {
            // sheared
            m[(0, p - 1)] = if p == 1 { A::lit(-2.0) } else { s };
        }
        _ => {
            // swapped and one column scaled
            A::assume_sign(c, away, POS);
            m.fill(A::lit(0.0));
            for i in 0..p {
                m[(i, p - 1 - i)] = if i == 0 { s } else { A::lit(3.0) };
            }
        }
    }
    let z = mm(&y, &m);
    if !full_rank(&z) {
        return;
    }
    let r = run(&a, &x, &|_, _| (), Some(y.view()), 1e-3, maxiter, largest);
    let q = run(&a, &x, &|_, _| (), Some(z.view()), 1e-3, maxiter, largest);
    match (best(&r.res), best(&q.res)) {
        (Some(r), Some(q)) => {
            same(c, "same span", &a, r, q);
            ortho(c, "other basis", &z, q);
            ritz_in(c, "other basis", &a, Some(&z), q, k, largest);
        }
        _ => c.check("both give a result", false),
    }
}
fn dot3<A: Scalar>(v: &[A], q: &Array2<A>, j: usize) -> A {
    (0..3).fold(A::lit(0.0), |s, i| s + v[i] * q[(i, j)])
}
/// n=3, one constraint: one step spans the complement, so the extreme pair of the restricted operator
fn step<A: Scalar>(c: &mut Ctx, w: usize, scale: i64, couple: bool, pre: bool, maxiter: usize, largest: bool) {
    let q: Array2<A> = orth(3, w);
    let l1 = A::input(c, "l1");
    let l2 = A::input(c, "l2");
    let gap = l1 - l2;
    A::assume_sign(c, gap - A::frac(1, 2), ZERO | POS);
    let mut d = diag(&[A::lit(20.0), l1, l2]);
    if couple {
        d[(0, 1)] = A::lit(1.5);
        d[(1, 0)] = A::lit(1.5);
    }
    let a = mm(&mm(&q, &d), &tr(&q));
    let mut y = Array2::from_elem((3, 1), A::lit(0.0));
    let mut x = Array2::from_elem((3, 1), A::lit(0.0));
    for i in 0..3 {
        y[(i, 0)] = q[(i, 0)] * A::lit(scale as f64);
        // the start has a part along the constraint
        x[(i, 0)] = q[(i, 0)] * A::lit(2.0) + q[(i, 1)] * A::lit(3.0) + q[(i, 2)] * A::lit(4.0);
    }
    for z in [l1, l2] {
        A::assume_sign(c, A::lit(100.0) - z, ZERO | POS);
        A::assume_sign(c, A::lit(100.0) + z, ZERO | POS);
    }
    // a preconditioner which brings the constraint back into every residual
    let back = |_: usize, mut v: ArrayViewMut2<A>| {
        if pre {
            for mut col in v.columns_mut() {
                let f = dot3(&col.to_vec(), &q, 2) + dot3(&col.to_vec(), &q, 1) + A::lit(0.5);
                for i in 0..3 {
                    col[i] = col[i] + col[i] + f * q[(i, 0)];
                }
            }
        }
    };
    let r = run(&a, &x, &back, Some(y.view()), 1e-3, maxiter, largest);
    let b = match best(&r.res) {
        Some(b) => b,
        None => {
            c.check("has a best result", false);
            return;
        }
    };
    if ritz_in(c, "result", &a, Some(&y), b, 1, largest) {
        ortho(c, "result", &y, b);
        if !couple && maxiter > 0 {
            set_scale::<A>(c, maxabs(&a));
            A::claim_eq(c, "extreme value of the complement", b.eigvals[0], if largest { l1 } else { l2 });
            c.scale = 1.0;
        }
    }
}
/// a start inside the constraints is an error
fn inside<A: Scalar>(c: &mut Ctx, n: usize) {
    let a = operator::<A>(c, n, 0);
    let s = A::input(c, "s");
    let mut y = Array2::from_elem((n, 1), A::lit(0.0));
    y[(n - 1, 0)] = A::input(c, "y");
    A::assume_sign(c, y[(n - 1, 0)] * y[(n - 1, 0)] - A::frac(1, 100), POS);
    let x = y.mapv(|v| v * s);
    let r = run(&a, &x, &|_, _| (), Some(y.view()), 1e-3, 1, true);
    c.check("error", matches!(r.res, Err((LinalgError::NotPositiveDefinite, None))));
}

pub fn jobs(t: bool) -> Vec<Job> {
    let mut v = vec![];
    for lg in [true, false] {
        let o = if lg { "max" } else { "min" };
        job!(v, format!("init-{}-2-1-1-full", o), |c, A| init::<A>(c, 2, 1, 1, 3, true, 2, lg)).desc("n=2, constraint, start and operator diagonal symbolic");
        for (n, p, k, ys, xs, f) in [
            (3, 1, 1, 0b111, false, 0),
            (3, 1, 1, 0b100, false, 3),
            (3, 1, 1, 0, true, 2),
            (3, 1, 1, 0b001, true, 0),
            (3, 2, 1, 0b100001, false, 1),
            (3, 2, 1, 0b000110, false, 0),
            (3, 2, 1, 0, false, 3),
            (3, 1, 2, 0b001, false, 1),
            (4, 1, 1, 0b0011, false, 0),
            (4, 2, 1, 0b10000000, false, 0),
            (4, 2, 2, 0, false, 1),
            (4, 1, 2, 0, false, 1),
        ] {
            job!(v, format!("init-{}-{}-{}-{}-{:b}{}{}", o, n, p, k, ys, if xs { "x" } else { "" }, f), |c, A| init::<A>(c, n, p, k, ys, xs, f, lg))
                .desc("dimension-constraints-block: the flagged entries of the constraints, the start (x) and leading diagonal of the operator symbolic");
        }
        for (n, p, k) in [(3, 1, 1), (3, 2, 1), (4, 2, 1), (4, 2, 2)] {
            for kind in 0..3 {
                for mi in 0..2 {
                    if p == 1 && kind == 1 || (k == 2 || n - p - k > 0) && mi > 0 && !t {
                        continue;
                    }
                    job!(v, format!("basis-{}-{}-{}-{}-k{}-{}", o, n, p, k, kind, mi), |c, A| basis::<A>(c, n, p, k, mi, kind, lg)).desc("two bases of the same constraints, one symbol in the change of basis, one in the operator");
                }
            }
        }
        for w in [0, 1, 8] {
            for sc in [1, 3, -7] {
                for cp in [false, true] {
                    for mi in 1..3 {
                        job!(v, format!("step-{}-q{}-s{}-{}-{}", o, w, sc, cp as u8, mi), |c, A| step::<A>(c, w, sc, cp, false, mi, lg)).desc("n=3, scaled constraint, both eigenvalues of the complement symbolic, with steps");
                        if sc == 3 && mi == 1 {
                            job!(v, format!("pre-{}-q{}-{}", o, w, cp as u8), |c, A| step::<A>(c, w, sc, cp, true, mi, lg)).desc("the same with a preconditioner that leaves the complement");
                        }
                    }
                }
            }
        }
    }
    for n in 1..4 {
        job!(v, format!("inside-{}", n), |c, A| inside::<A>(c, n)).desc("start within the constraints");
    }
    v
}
