use super::util::*;
use crate::ctx::*;
use crate::engine::{NEG, POS, ZERO};
use crate::job;
use linfa_linalg::cholesky::*;
use linfa_linalg::LinalgError;
use ndarray::prelude::*;

fn ill<A: Scalar>(a: &Array2<A>) -> bool {
    // native runs only: too close to singular to judge the solution by forward error
    !A::SYM && {
        let n = a.nrows();
        let mut worst = f64::INFINITY;
        if n > 6 {
            // pivots of the elimination
            let mut m = a.mapv(|x| x.approx());
            for k in 0..n {
                worst = worst.min(m[(k, k)] / maxabs(a).max(1e-300));
                for i in k + 1..n {
                    let f = m[(i, k)] / m[(k, k)];
                    for j in k..n {
                        m[(i, j)] -= f * m[(k, j)];
                    }
                }
            }
            return !(worst > 1e-6);
        }
        for k in 1..=n {
            let d = det(&a.slice(s![..k, ..k]).to_owned()).approx();
            worst = worst.min(d / maxabs(a).max(1e-300).powi(k as i32));
        }
        n > 0 && !(worst > 1e-8)
    }
}
fn solution<A: Scalar>(c: &mut Ctx, n: &str, s: &Array2<A>, x: &Array2<A>, b: &Array2<A>) {
    c.check(&format!("{} shape", n), x.dim() == b.dim());
    eq_prod(c, &format!("{} A*X", n), s, x, b);
}
/// the lower triangle of `a` matters only
fn run<A: Scalar>(c: &mut Ctx, a: &Array2<A>, b: &Array2<A>, la: Lay, lb: Lay) {
    let s = from_lower(a);
    let pad = A::lit(7.0);
    let n = a.nrows();
    let bb = laid(b, lb, pad);
    let mut w = laid(a, la, pad);
    match w.solvec(&bb) {
        Ok(x) => {
            solution(c, "solvec", &s, &x, b);
            same_mat(c, "B untouched", &bb.to_owned(), b);
            let y = laid(a, la, pad).solvec_into(laid(b, lb, pad)).unwrap();
            agree_mat(c, "solvec_into", &y.to_owned(), &x);
            let mut z = laid(b, lb, pad);
            laid(a, la, pad).solvec_inplace(&mut z).unwrap();
            agree_mat(c, "solvec_inplace", &z.to_owned(), &x);
            let mut v = laid(a, la, pad);
            let y = v.view_mut().solvec(&bb.view()).unwrap();
            agree_mat(c, "view", &y, &x);
            let mut nu = with_upper(a, A::nan());
            let y = nu.solvec(b).unwrap();
            agree_mat(c, "upper triangle of NaN", &y, &x);
            let keep = laid(a, la, pad);
            let inv = keep.invc().unwrap();
            same_mat(c, "invc leaves its argument", &keep.to_owned(), a);
            c.check("inverse shape", inv.dim() == (n, n));
            eq_prod(c, "A*inv", &s, &inv, &eye(n));
            let i2 = laid(a, la, pad).invc_inplace().unwrap();
            agree_mat(c, "invc_inplace", &i2, &inv);
        }
        Err(e) => {
            c.check("error kind", matches!(e, LinalgError::NotPositiveDefinite));
            c.check("invc agrees", matches!(laid(a, la, pad).invc(), Err(LinalgError::NotPositiveDefinite)));
            c.check("invc_inplace agrees", matches!(laid(a, la, pad).invc_inplace(), Err(LinalgError::NotPositiveDefinite)));
            for k in 1..n {
                if !(det(&s.slice(s![..k, ..k]).to_owned()) > A::lit(0.0)) {
                    return;
                }
            }
            set_scale::<A>(c, maxabs(&s).powi(n as i32).max(if c.unit < 1.0 { 0.0 } else { 1.0 }));
            A::claim_sign(c, "rejected only if not positive definite", det(&s), NEG | ZERO);
            c.scale = 1.0;
        }
    }
}
fn full<A: Scalar>(c: &mut Ctx, n: usize, k: usize, la: Lay, lb: Lay) {
    let a: Array2<A> = mat(c, "a", n, n);
    let b: Array2<A> = mat(c, "b", n, k);
    run(c, &a, &b, la, lb);
}
fn family<A: Scalar>(c: &mut Ctx, n: usize, k: usize) {
    let l0 = tr(&upper_pat::<A>(c, "l", n, 0));
    for i in 0..n {
        A::assume_sign(c, l0[(i, i)], POS);
    }
    let a = mm(&l0, &tr(&l0));
    let x0: Array2<A> = mat(c, "x", n, k);
    let b = mm(&a, &x0);
    if ill(&a) {
        return;
    }
    match a.clone().solvec(&b) {
        Ok(x) => {
            if A::SYM {
                eq_mat(c, "solvec", &x, &x0)
            } else {
                solution(c, "solvec", &a, &x, &b)
            }
        }
        Err(_) => c.check("accepted", false),
    }
}
/// unit lower factor, fixed right-hand side count, inverse against the exact one
fn inv_family<A: Scalar>(c: &mut Ctx, n: usize) {
    let l0 = unit_lower::<A>(c, "l", n);
    let d: Vec<A> = (0..n)
        .map(|i| {
            let x = A::input(c, &format!("d{}", i));
            A::assume_sign(c, x, POS);
            x * x
        })
        .collect();
    let a = mm(&mm(&l0, &diag(&d)), &tr(&l0));
    if ill(&a) {
        return;
    }
    match a.invc() {
        Ok(i) => eq_prod(c, "A*inv", &a, &i, &eye(n)),
        Err(_) => c.check("accepted", false),
    }
}
fn shapes<A: Scalar>(c: &mut Ctx) {
    for r in 0..4 {
        for k in 0..4 {
            let mut a: Array2<A> = fixed(r, k, 5);
            for i in 0..r.min(k) {
                a[(i, i)] = A::lit(30.0);
            }
            if r != k {
                let ns = |e: &LinalgError| matches!(e, LinalgError::NotSquare { rows, cols } if *rows == r && *cols == k);
                c.check(&format!("invc {}x{}", r, k), matches!(a.invc(), Err(e) if ns(&e)));
                c.check(&format!("invc_inplace {}x{}", r, k), matches!(a.clone().invc_inplace(), Err(e) if ns(&e)));
            }
            for br in 0..4 {
                for bc in 0..3 {
                    let b: Array2<A> = fixed(br, bc, 6);
                    let mut bi = b.clone();
                    for e in [
                        a.clone().solvec(&b).map(|x| x.dim()),
                        a.clone().solvec_into(b.clone()).map(|x| x.dim()),
                        a.clone().solvec_inplace(&mut bi).map(|x| x.dim()),
                    ] {
                        let n = format!("{}x{} \\ {}x{}", r, k, br, bc);
                        if r != k {
                            c.check(&n, matches!(e, Err(LinalgError::NotSquare { rows, cols }) if rows == r && cols == k));
                        } else if br != r {
                            c.check(&n, matches!(e, Err(LinalgError::WrongRows { expected, actual }) if expected == r && actual == br));
                        } else {
                            c.check(&n, matches!(e, Ok(d) if d == (br, bc)));
                        }
                    }
                }
            }
        }
    }
}

pub fn jobs(t: bool) -> Vec<Job> {
    let mut v = vec![];
    for n in 0..3 {
        for k in 0..3 {
            for (q, la) in LAYS.into_iter().enumerate() {
                if q > 2 && k != 1 && !t {
                    continue;
                }
                let lb = LAYS[(q + n + 2 * k + 1) % LAYS.len()];
                job!(v, format!("full-{}x{}-{:?}-{:?}", n, k, la, lb), |c, A| full::<A>(c, n, k, la, lb)).desc("A and B fully symbolic, upper triangle unrelated");
            }
        }
    }
    for k in 0..4 {
        for (q, la) in LAYS.into_iter().enumerate() {
            if q < 1 || k == 1 || t {
                job!(v, format!("full-3x{}-{:?}", k, la), |c, A| full::<A>(c, 3, k, la, la)).desc("A and B fully symbolic, upper triangle unrelated");
            }
        }
    }
    for n in 1..4 {
        job!(v, format!("full-{}x1", n), |c, A| full::<A>(c, n, 1, Lay::C, Lay::C)).desc("A and B fully symbolic and small against one").tiny();
    }
    job!(v, "full-4x1", |c, A| full::<A>(c, 4, 1, Lay::C, Lay::F)).desc("A and B fully symbolic, upper triangle unrelated");
    for n in [2, 3, 4, 5] {
        for k in [1, 3] {
            if n < 5 || k == 1 || t {
                job!(v, format!("fam-{}x{}", n, k), |c, A| family::<A>(c, n, k)).desc("A = L0 L0^T and B = A X0 with L0, X0 symbolic");
            }
        }
        if n < 5 || t {
            job!(v, format!("inv-{}", n), |c, A| inv_family::<A>(c, n)).desc("A = L0 D^2 L0^T, unit L0");
        }
    }
    for e in [-400, 400] {
        for n in 1..3 {
            job!(v, format!("full-{}x1", n), |c, A| full::<A>(c, n, 1, Lay::C, Lay::C)).desc("A and B symbolic multiples of a power of two").unit(e);
        }
    }
    for n in [5, 6, 8, 10, 16, 17, 33] {
        for i in [0, n - 1] {
            job!(v, format!("large-{}-{}", n, i), |c, A| {
                let a = large_pd::<A>(c, n, &[i]);
                let mut b: Array2<A> = fixed(n, 2, 7);
                b[(n - 1 - i, 0)] = A::input(c, "b");
                if !ill(&a) {
                    run(c, &a, &b, Lay::C, Lay::C)
                }
            })
            .desc("A = L0 D L0^T, one entry of D and one of B symbolic");
        }
    }
    job!(v, "shapes", |c, A| shapes::<A>(c)).desc("all shapes of A up to 3x3 and B up to 3x2");
    v
}
