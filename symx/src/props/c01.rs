use super::util::*;
use crate::ctx::*;
use crate::job;
use linfa_linalg::triangular::*;
use linfa_linalg::LinalgError;
use ndarray::prelude::*;

fn excluded(u: UPLO, i: usize, j: usize) -> bool {
    match u {
        UPLO::Upper => i > j,
        UPLO::Lower => i < j,
    }
}
fn projected<A: Scalar>(c: &mut Ctx, n: &str, m: &Array2<A>, out: &Array2<A>, u: UPLO) {
    c.check(&format!("{} shape", n), m.dim() == out.dim());
    for i in 0..m.nrows() {
        for j in 0..m.ncols() {
            let want = if excluded(u, i, j) { A::lit(0.0) } else { m[(i, j)] };
            A::claim_same(c, &format!("{} [{},{}]", n, i, j), out[(i, j)], want);
        }
    }
}
fn square<A: Scalar>(c: &mut Ctx, n: usize, u: UPLO) {
    let m: Array2<A> = mat(c, "m", n, n);
    for l in LAYS {
        let mut x = laid(&m, l, A::lit(7.0));
        x.triangular_inplace(u).unwrap();
        projected(c, &format!("{:?}", l), &m, &x.to_owned(), u);
        let y = laid(&m, l, A::lit(7.0)).into_triangular(u).unwrap();
        projected(c, &format!("{:?} consuming", l), &m, &y.to_owned(), u);
        c.check("the projection passes the predicate", y.is_triangular(u));
    }
    // view into a larger array, transposed view; the surroundings stay
    let big: Array2<A> = mat(c, "g", 2 * n + 1, n + 2);
    let mut b = big.clone();
    let mut want = big.clone();
    b.slice_mut(s![1..;2, 1..n + 1]).triangular_inplace(u).unwrap();
    for i in 0..n {
        for j in 0..n {
            if excluded(u, i, j) {
                want[(2 * i + 1, j + 1)] = A::lit(0.0);
            }
        }
    }
    same_mat(c, "view", &b, &want);
    let mut t = m.clone();
    t.view_mut().reversed_axes().triangular_inplace(u).unwrap();
    projected(c, "transposed view", &tr(&m), &tr(&t), u);
}
fn predicate<A: Scalar>(c: &mut Ctx, n: usize, u: UPLO, l: Lay) {
    let m: Array2<A> = mat(c, "m", n, n);
    let x = laid(&m, l, A::lit(7.0));
    let ans = x.is_triangular(u);
    let mut sq = A::lit(0.0);
    let mut any = false;
    for i in 0..n {
        for j in 0..n {
            if excluded(u, i, j) {
                if ans {
                    zero(c, &format!("[{},{}]", i, j), m[(i, j)]);
                } else {
                    any = true;
                    sq = sq + m[(i, j)] * m[(i, j)];
                }
            }
        }
    }
    if !ans {
        c.check("false only with an excluded entry", any);
        A::claim_sign(c, "some excluded entry is not zero", sq, crate::engine::POS);
    } else {
        c.check("reached", true);
    }
}
fn shapes<A: Scalar>(c: &mut Ctx, u: UPLO) {
    for r in 0..5 {
        for k in 0..5 {
            if r == k {
                continue;
            }
            let m: Array2<A> = mat(c, &format!("m{}{}_", r, k), r, k);
            for l in [Lay::C, Lay::F, Lay::Strided] {
                let mut x = laid(&m, l, A::lit(7.0));
                let e = x.triangular_inplace(u).map(|_| ());
                c.check(&format!("not square {}x{}", r, k), matches!(e, Err(LinalgError::NotSquare { rows, cols }) if rows == r && cols == k));
                same_mat(c, &format!("untouched {}x{}", r, k), &x.to_owned(), &m);
                c.check(&format!("predicate {}x{}", r, k), !x.is_triangular(u));
                let e = x.into_triangular(u).map(|_| ());
                c.check(&format!("not square {}x{} consuming", r, k), matches!(e, Err(LinalgError::NotSquare { rows, cols }) if rows == r && cols == k));
            }
        }
    }
}

pub fn jobs(t: bool) -> Vec<Job> {
    let mut v = vec![];
    for u in [UPLO::Upper, UPLO::Lower] {
        for n in 0..if t { 12 } else { 9 } {
            job!(v, format!("project-{:?}-{}", u, n), |c, A| square::<A>(c, n, u)).desc("all entries symbolic, 6 layouts, views, borrowed and consuming");
        }
        for n in 0..if t { 10 } else { 8 } {
            for l in LAYS {
                job!(v, format!("predicate-{:?}-{}-{:?}", u, n, l), |c, A| predicate::<A>(c, n, u, l)).desc("all entries symbolic, one layout");
            }
        }
        for n in [12, 17, 33, 65] {
            job!(v, format!("project-{:?}-{}", u, n), |c, A| square::<A>(c, n, u)).desc("all entries symbolic, 6 layouts, views, borrowed and consuming");
        }
        job!(v, format!("shapes-{:?}", u), |c, A| shapes::<A>(c, u)).desc("all non-square shapes up to 4x4");
    }
    v
}
