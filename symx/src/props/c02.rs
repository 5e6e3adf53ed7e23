use super::util::*;
use crate::ctx::*;
use crate::engine::{NEG, POS};
use crate::job;
use linfa_linalg::triangular::*;
use linfa_linalg::LinalgError;
use ndarray::prelude::*;

/// The selected triangle of `t`, the rest zero.
fn sel<A: Scalar>(t: &Array2<A>, u: UPLO) -> Array2<A> {
    let n = t.nrows();
    let mut o = Array2::from_elem((n, n), A::lit(0.0));
    for i in 0..n {
        for j in 0..n {
            if (u == UPLO::Upper && i <= j) || (u == UPLO::Lower && i >= j) {
                o[(i, j)] = t[(i, j)];
            }
        }
    }
    o
}
fn post<A: Scalar>(c: &mut Ctx, n: &str, t: &Array2<A>, u: UPLO, x: &Array2<A>, b: &Array2<A>) {
    c.check(&format!("{} shape", n), x.dim() == b.dim());
    eq_prod(c, &format!("{} T*X", n), &sel(t, u), x, b);
}
/// every form; the unused triangle holds `junk` (NaN when None)
fn solve<A: Scalar>(c: &mut Ctx, n: usize, k: usize, u: UPLO, la: Lay, lb: Lay, junk: bool) {
    let mut t: Array2<A> = mat(c, "t", n, n);
    let b: Array2<A> = mat(c, "b", n, k);
    for i in 0..n {
        A::assume_sign(c, t[(i, i)], NEG | POS);
        for j in 0..n {
            if !junk && ((u == UPLO::Upper && i > j) || (u == UPLO::Lower && i < j)) {
                t[(i, j)] = A::nan();
            }
        }
    }
    let pad = A::lit(7.0);
    let (ta, bb) = (laid(&t, la, pad), laid(&b, lb, pad));
    let x = ta.solve_triangular(&bb, u).unwrap();
    post(c, "borrowed", &t, u, &x, &b);
    same_mat(c, "T untouched", &sel(&ta.to_owned(), u), &sel(&t, u));
    same_mat(c, "B untouched", &bb.to_owned(), &b);
    let y = ta.solve_triangular_into(laid(&b, lb, pad), u).unwrap();
    agree_mat(c, "consuming form", &y.to_owned(), &x);
    let mut z = laid(&b, lb, pad);
    ta.solve_triangular_inplace(&mut z, u).unwrap();
    agree_mat(c, "in-place form", &z.to_owned(), &x);
    let vx = ta.view().solve_triangular(&bb.view(), u).unwrap();
    agree_mat(c, "view form", &vx, &x);
    // transposed view, other triangle
    let tt = tr(&t);
    let o = if u == UPLO::Upper { UPLO::Lower } else { UPLO::Upper };
    let w = tt.t().solve_triangular(&bb, u).unwrap();
    agree_mat(c, "transposed view", &w, &x);
    let w = tr(&t).solve_triangular(&b, o).unwrap();
    if k > 0 && n > 0 {
        eq_prod(c, "transposed system", &sel(&tt, o), &w, &b);
    }
}
/// large systems with few symbolic entries
pub fn big<A: Scalar>(c: &mut Ctx, n: usize, k: usize, u: UPLO, i: usize) -> (Array2<A>, Array2<A>) {
    let g: Array2<A> = fixed(n, n, 29);
    let mut t = Array2::from_shape_fn((n, n), |(p, q)| if p == q { A::frac([1, -2, 2, 1][p % 4], 2) } else if (p + 2 * q) % 5 < 2 || p.abs_diff(q) == n - 1 { g[(p, q)] } else { A::lit(0.0) });
    t[(i, i)] = A::input(c, "d");
    A::assume_sign(c, t[(i, i)], NEG | POS);
    t[(n - 1, 0)] = A::input(c, "lo");
    t[(0, n - 1)] = A::input(c, "up");
    let mut b: Array2<A> = fixed(n, k, 31);
    b[(if u == UPLO::Upper { n - 1 } else { 0 }, k - 1)] = A::input(c, "b");
    (t, b)
}
fn large<A: Scalar>(c: &mut Ctx, n: usize, k: usize, u: UPLO, i: usize) {
    let (t, b) = big::<A>(c, n, k, u, i);
    let x = t.solve_triangular(&b, u).unwrap();
    post(c, "large", &t, u, &x, &b);
    agree_mat(c, "consuming", &t.solve_triangular_into(b, u).unwrap(), &x);
}
/// in place through a strided view: only the selected cells change
fn inplace_view<A: Scalar>(c: &mut Ctx, n: usize, u: UPLO) {
    let t: Array2<A> = mat(c, "t", n, n);
    for i in 0..n {
        A::assume_sign(c, t[(i, i)], NEG | POS);
    }
    let big: Array2<A> = mat(c, "g", 2 * n + 1, 4);
    let mut g = big.clone();
    {
        let mut v = g.slice_mut(s![1..;2, ..;2]);
        let mut v2 = v.view_mut();
        t.view().solve_triangular_inplace(&mut v2, u).unwrap();
    }
    let b = big.slice(s![1..;2, ..;2]).to_owned();
    let x = g.slice(s![1..;2, ..;2]).to_owned();
    post(c, "view", &t, u, &x, &b);
    for i in 0..big.nrows() {
        for j in 0..4 {
            if i % 2 == 0 || j % 2 == 1 {
                A::claim_same(c, &format!("surroundings [{},{}]", i, j), g[(i, j)], big[(i, j)]);
            }
        }
    }
}
fn shapes<A: Scalar>(c: &mut Ctx, u: UPLO) {
    for r in 0..4 {
        for k in 0..4 {
            for br in 0..4 {
                for bc in 0..3 {
                    let mut t = fixed::<A>(r, k, 3);
                    for i in 0..r.min(k) {
                        t[(i, i)] = A::lit(2.0);
                    }
                    let b: Array2<A> = fixed(br, bc, 4);
                    let mut bi = b.clone();
                    let rs = [
                        t.solve_triangular(&b, u).map(|x| x.dim()),
                        t.solve_triangular_into(b.clone(), u).map(|x| x.dim()),
                        t.solve_triangular_inplace(&mut bi, u).map(|x| x.dim()),
                    ];
                    for e in rs {
                        let n = format!("{}x{} \\ {}x{}", r, k, br, bc);
                        if r != k {
                            c.check(&n, matches!(e, Err(LinalgError::NotSquare { rows, cols }) if rows == r && cols == k));
                        } else if br != r {
                            c.check(&n, matches!(e, Err(LinalgError::WrongRows { expected, actual }) if expected == r && actual == br));
                        } else {
                            c.check(&n, matches!(e, Ok(d) if d == (br, bc)));
                        }
                    }
                }
            }
        }
    }
}

pub fn jobs(t: bool) -> Vec<Job> {
    let mut v = vec![];
    for u in [UPLO::Upper, UPLO::Lower] {
        for n in 0..if t { 8 } else { 7 } {
            for k in 0..if t { 5 } else { 4 } {
                for (q, la) in LAYS.into_iter().enumerate() {
                    let lb = LAYS[(q + n + k) % LAYS.len()];
                    job!(v, format!("solve-{:?}-{}x{}-{:?}-{:?}", u, n, k, la, lb), |c, A| solve::<A>(c, n, k, u, la, lb, true)).desc("T and B fully symbolic, diagonal assumed non-zero");
                }
                job!(v, format!("nan-{:?}-{}x{}", u, n, k), |c, A| solve::<A>(c, n, k, u, Lay::C, Lay::C, false)).desc("unused triangle filled with NaN");
            }
            if n > 0 {
                job!(v, format!("view-{:?}-{}", u, n), |c, A| inplace_view::<A>(c, n, u)).desc("in place on a strided view of a larger symbolic array");
            }
        }
        for n in if t { 8..17 } else { 8..14 } {
            job!(v, format!("solve-{:?}-{}x1", u, n), |c, A| solve::<A>(c, n, 1, u, Lay::C, Lay::C, true)).desc("T and B fully symbolic, diagonal assumed non-zero");
        }
        for (n, k) in [(17, 2), (20, 9), (33, 1), (33, 17), (65, 1), (3, 33)] {
            for i in [0, n / 2, n - 1] {
                job!(v, format!("large-{:?}-{}x{}-{}", u, n, k, i), |c, A| large::<A>(c, n, k, u, i)).desc("large T, one diagonal and two other entries of T and one of B symbolic");
            }
        }
        for n in 1..4 {
            job!(v, format!("solve-{:?}-{}", u, n), |c, A| solve::<A>(c, n, 2, u, Lay::C, Lay::F, true)).desc("T and B fully symbolic and small against one").tiny();
        }
        job!(v, format!("shapes-{:?}", u), |c, A| shapes::<A>(c, u)).desc("all shapes of T up to 3x3 and B up to 3x2");
    }
    v
}
