use super::util::*;
use crate::ctx::*;
use crate::engine::{NEG, POS, ZERO};
use crate::job;
use linfa_linalg::qr::*;
use linfa_linalg::{LinalgError, Result};
use ndarray::prelude::*;

fn nz<A: Scalar>(c: &mut Ctx, r0: &Array2<A>, pat: u32) {
    for i in 0..r0.ncols() {
        if pat.checked_shr(i as u32).unwrap_or(0) & 1 == 0 {
            A::assume_sign(c, r0[(i, i)], NEG | POS);
        }
    }
}
fn noninv<T>(r: &Result<T>) -> bool {
    matches!(r, Err(LinalgError::NonInvertible))
}
/// A^T (A X - B) = 0, and A X = B when square
fn ls_post<A: Scalar>(c: &mut Ctx, n: &str, a: &Array2<A>, x: &Array2<A>, b: &Array2<A>) {
    c.check(&format!("{} shape", n), x.dim() == (a.ncols(), b.ncols()));
    if x.dim() != (a.ncols(), b.ncols()) {
        return;
    }
    if a.nrows() == a.ncols() {
        eq_prod(c, &format!("{} A*X", n), a, x, b);
    } else {
        let r = mm(a, x) - b;
        let g = mm(&tr(a), &r);
        set_scale::<A>(c, maxabs(a) * (maxabs(a) * maxabs(x)).max(maxabs(b)));
        let z = Array2::from_elem(g.dim(), A::lit(0.0));
        eq_mat(c, &format!("{} A^T*(A*X-B)", n), &g, &z);
        c.scale = 1.0;
    }
}
/// everything the decomposition of a thin `a` offers, with `b` (rows of a) and `bt` (columns of a);
/// `null`: orthonormal complement of the column space of `a`
fn thin<A: Scalar>(c: &mut Ctx, a: &Array2<A>, b: &Array2<A>, bt: &Array2<A>, null: Option<&Array2<A>>, lay: Lay, gram: Option<A>, exact: bool) {
    let pad = A::lit(7.0);
    let (r, k) = a.dim();
    let d = laid(a, lay, pad).qr_into().unwrap();
    let inv = d.is_invertible();
    let x = d.solve(b);
    let xt = d.solve_tr(bt);
    let iv = d.inverse();
    let l = laid(a, lay, pad).least_squares(b);
    let two_ways = r > k || gram.is_none();
    let w = if two_ways { Some(tr(a).least_squares(bt)) } else { None };
    let g = gram.unwrap_or_else(|| det(&mm(&tr(a), a)));
    if !A::SYM && !exact {
        // rounding may decide singularity either way close to a singular matrix
        let small = 1e-9 * maxabs(a).powi(2 * k as i32);
        if !(g.approx().abs() > small) {
            return;
        }
    }
    if !inv {
        c.check("solve reports singular", noninv(&x));
        c.check("solve_into reports singular", noninv(&d.solve_into(laid(b, lay, pad))));
        c.check("solve_tr reports singular", noninv(&xt));
        c.check("solve_tr_into reports singular", noninv(&d.solve_tr_into(laid(bt, lay, pad))));
        c.check("least squares reports singular", noninv(&l));
        c.check("wide least squares reports singular", w.iter().all(noninv));
        if r == k {
            c.check("inverse reports singular", noninv(&iv));
        }
        // the Gram determinant is zero exactly when singular
        if A::SYM {
            zero(c, "singular only if rank deficient", g);
        } else if r == k {
            let cols: f64 = (0..k).map(|j| (0..k).map(|i| a[(i, j)].approx().powi(2)).sum::<f64>().sqrt()).product();
            c.check("singular only if rank deficient", det(a).approx().abs() <= 1e-13 * cols);
        }
    } else {
        if A::SYM {
            A::claim_sign(c, "invertible only if full rank", g, POS);
        }
        let (x, xt, l) = match (x, xt, l) {
            (Ok(x), Ok(xt), Ok(l)) => (x, xt, l),
            (x, xt, l) => {
                c.check(&format!("all solve: {} {} {}", x.is_ok(), xt.is_ok(), l.is_ok()), false);
                return;
            }
        };
        ls_post(c, "solve", a, &x, b);
        agree_mat(c, "solve_into", &d.solve_into(laid(b, lay, pad)).unwrap().to_owned(), &x);
        agree_mat(c, "least_squares", &l, &x);
        agree_mat(c, "least_squares_into", &laid(a, lay, pad).least_squares_into(laid(b, lay, pad)).unwrap(), &x);
        // transposed: A^T X = bt, X in the column space of A
        c.check("solve_tr shape", xt.dim() == (r, bt.ncols()));
        eq_prod(c, "A^T*X", &tr(a), &xt, bt);
        if let Some(nl) = null {
            let z = Array2::from_elem((nl.ncols(), bt.ncols()), A::lit(0.0));
            set_scale::<A>(c, maxabs(&xt));
            eq_mat(c, "minimum norm", &mm(&tr(nl), &xt), &z);
            c.scale = 1.0;
        }
        agree_mat(c, "solve_tr_into", &d.solve_tr_into(laid(bt, lay, pad)).unwrap(), &xt);
        // wide least squares: the minimum-norm solution again (square systems go the other way)
        match w {
            None => (),
            Some(Err(_)) => c.check("wide least squares solves", false),
            Some(Ok(w)) => {
                if A::SYM && r > k {
                    eq_mat(c, "wide least squares", &w, &xt);
                } else {
                    eq_prod(c, "wide least squares A^T*X", &tr(a), &w, bt);
                }
                if r > k {
                    agree_mat(c, "wide least squares, consuming", &tr(a).least_squares_into(bt.clone()).unwrap(), &w);
                }
            }
        }
        if r == k {
            match &iv {
                Ok(i) => {
                    eq_prod(c, "A*inv", a, i, &eye(k));
                    if A::SYM {
                        eq_prod(c, "inv*A", i, a, &eye(k));
                    }
                }
                Err(_) => c.check("inverse exists", false),
            }
        }
    }
    if r != k {
        c.check("inverse of a non-square matrix", matches!(iv, Err(LinalgError::NotSquare { rows, cols }) if rows == r && cols == k));
    }
}
fn full<A: Scalar>(c: &mut Ctx, r: usize, k: usize, m: usize, lay: Lay) {
    let a: Array2<A> = mat(c, "a", r, k);
    let b: Array2<A> = mat(c, "b", r, m);
    let bt: Array2<A> = mat(c, "t", k, m);
    let mut null = None;
    if (r, k) == (2, 1) {
        // not normalised; only its direction matters
        let mut n = Array2::from_elem((2, 1), A::lit(0.0));
        n[(0, 0)] = A::lit(0.0) - a[(1, 0)];
        n[(1, 0)] = a[(0, 0)];
        if A::SYM {
            null = Some(n);
        }
    }
    thin(c, &a, &b, &bt, null.as_ref(), lay, None, false);
}
fn family<A: Scalar>(c: &mut Ctx, q0: Array2<A>, r0: Array2<A>, pat: u32, m: usize) {
    let (r, k) = (q0.nrows(), r0.ncols());
    nz(c, &r0, pat);
    let null = q0.slice(s![.., k..]).to_owned();
    let q = q0.slice(s![.., ..k]).to_owned();
    let a = mm(&q, &r0);
    let b: Array2<A> = mat(c, "b", r, m);
    let bt: Array2<A> = mat(c, "t", k, m);
    if !A::SYM && pat == 0 {
        let mn = (0..k).map(|i| r0[(i, i)].approx().abs()).fold(f64::INFINITY, f64::min);
        if mn < 1e-5 * maxabs(&r0) {
            return;
        }
    }
    let mut g = A::lit(1.0);
    for i in 0..k {
        g = g * r0[(i, i)] * r0[(i, i)];
    }
    thin(c, &a, &b, &bt, Some(&null), Lay::C, Some(g), false);
}
/// exactly triangular input: the zero on the diagonal survives in f64 too
fn singular<A: Scalar>(c: &mut Ctx, r: usize, k: usize, pat: u32, m: usize) {
    let mut a = Array2::from_elem((r, k), A::lit(0.0));
    for i in 0..k {
        for j in i..k {
            a[(i, j)] = if i == j {
                if pat.checked_shr(i as u32).unwrap_or(0) & 1 == 1 {
                    A::lit(0.0)
                } else {
                    let x = A::input(c, &format!("d{}", i));
                    A::assume_sign(c, x, NEG | POS);
                    x
                }
            } else {
                A::input(c, &format!("a{}{}", i, j))
            };
        }
    }
    // below a zero pivot nothing may be left, or the pivot is rebuilt from it
    for i in 0..k {
        if pat.checked_shr(i as u32).unwrap_or(0) & 1 == 1 {
            for j in i + 1..k {
                a[(i, j)] = A::lit(0.0);
            }
        }
    }
    let b: Array2<A> = fixed(r, m, 3);
    let bt: Array2<A> = fixed(k, m, 4);
    let d = a.qr().unwrap();
    c.check("predicate", d.is_invertible() == (pat == 0));
    let mut g = A::lit(1.0);
    for i in 0..k {
        g = g * a[(i, i)] * a[(i, i)];
    }
    thin(c, &a, &b, &bt, None, Lay::C, Some(g), true);
}
fn shapes<A: Scalar>(c: &mut Ctx) {
    for r in 0..5 {
        for k in 0..5 {
            for br in 0..5 {
                for m in [0, 2] {
                    let mut a: Array2<A> = fixed(r, k, 2);
                    for i in 0..r.min(k) {
                        a[(i, i)] = A::lit(20.0);
                    }
                    let b: Array2<A> = fixed(br, m, 3);
                    let n = format!("{}x{} \\ {}x{}", r, k, br, m);
                    for (nm, e) in [("least_squares", a.clone().least_squares(&b)), ("least_squares_into", a.clone().least_squares_into(b.clone()))] {
                        c.check(
                            &format!("{} {}", nm, n),
                            if br == r { matches!(e, Ok(x) if x.dim() == (k, m)) } else { matches!(e, Err(LinalgError::WrongRows { expected, actual }) if expected == r && actual == br) },
                        );
                    }
                    if r < k {
                        continue;
                    }
                    let d = a.qr().unwrap();
                    c.check(&format!("predicate {}", n), d.is_invertible());
                    for (nm, e) in [("solve", d.solve(&b)), ("solve_into", d.solve_into(b.clone()).map(|x| x.to_owned()))] {
                        c.check(
                            &format!("{} {}", nm, n),
                            if br == r { matches!(e, Ok(x) if x.dim() == (k, m)) } else { matches!(e, Err(LinalgError::WrongRows { expected, actual }) if expected == r && actual == br) },
                        );
                    }
                    for (nm, e) in [("solve_tr", d.solve_tr(&b)), ("solve_tr_into", d.solve_tr_into(b.clone()))] {
                        c.check(
                            &format!("{} {}", nm, n),
                            if br == k { matches!(e, Ok(x) if x.dim() == (r, m)) } else { matches!(e, Err(LinalgError::WrongRows { expected, actual }) if expected == k && actual == br) },
                        );
                    }
                    let e = d.inverse();
                    c.check(
                        &format!("inverse {}", n),
                        if r == k { matches!(e, Ok(x) if x.dim() == (k, k)) } else { matches!(e, Err(LinalgError::NotSquare { rows, cols }) if rows == r && cols == k) },
                    );
                }
            }
        }
    }
}

/// Triangular input whose diagonal entries may be of any size: invertible as long as none is zero.
fn uneven<A: Scalar>(c: &mut Ctx, n: usize, lower: bool) {
    let d: Vec<A> = (0..n).map(|i| A::input(c, &format!("d{}", i))).collect();
    for &x in &d {
        A::assume_sign(c, x * x - A::lit(2f64.powi(-160)), ZERO | POS);
        A::assume_sign(c, A::lit(2f64.powi(160)) - x * x, ZERO | POS);
    }
    let mut a = diag(&d);
    if n > 1 {
        a[(0, n - 1)] = A::input(c, "u");
        let u = a[(0, n - 1)];
        A::assume_sign(c, A::lit(1.0) - u * u, ZERO | POS);
    }
    if lower && n > 1 {
        // through the wide least squares
        a[(0, n - 1)] = A::lit(0.0);
    }
    let q = a.qr().unwrap();
    c.check("invertible", q.is_invertible());
    let ident: Array2<A> = eye(n);
    for (nm, x) in [("solve", q.solve(&ident)), ("inverse", q.inverse()), ("least squares", a.least_squares(&ident))] {
        match x {
            Ok(x) => {
                for i in 0..n {
                    A::claim_eq(c, &format!("{}: {}", nm, i), x[(i, i)] * d[i], A::lit(1.0));
                }
            }
            Err(_) => c.check(&format!("{} succeeds", nm), false),
        }
    }
}

pub fn jobs(t: bool) -> Vec<Job> {
    let mut v = vec![];
    for (r, k) in [(1, 1), (2, 1), (2, 2)] {
        for (q, l) in LAYS.into_iter().enumerate() {
            let m = [1, 2, 1, 0, 3, 1][q];
            job!(v, format!("full-{}x{}-{}-{:?}", r, k, m, l), |c, A| full::<A>(c, r, k, m, l)).desc("A and both right-hand sides symbolic");
        }
    }
    for (r, k) in [(1, 1), (2, 1), (2, 2)] {
        job!(v, format!("full-{}x{}", r, k), |c, A| full::<A>(c, r, k, 1, Lay::C)).desc("A and both right-hand sides symbolic and small against one").tiny();
    }
    job!(v, "fam-3x2", |c, A| {
        let r0 = upper_pat(c, "r", 2, 0);
        family::<A>(c, orth(3, 0), r0, 0, 1)
    })
    .desc("A = Q0*R0 of full rank, small against one")
    .tiny();
    for n in 1..=3 {
        for lo in [false, true] {
            job!(v, format!("uneven-{}-{}", n, lo as u8), |c, A| uneven::<A>(c, n, lo)).desc("diagonal entries of any magnitude, machine epsilon visible").eps(f64::EPSILON);
        }
    }
    for (r, k) in [(3, 1), (3, 2), (3, 3), (4, 2)] {
        for w in 0..2 {
            for m in [1, 2] {
                job!(v, format!("fam{}-{}x{}-{}", w, r, k, m), |c, A| {
                    let r0 = upper_pat(c, "r", k, 0);
                    family::<A>(c, orth(r, w), r0, 0, m)
                })
                .desc("A = Q0*R0 of full rank, R0 and right-hand sides symbolic");
            }
        }
    }
    for (r, k) in [(4, 3), (4, 4), (5, 3)] {
        job!(v, format!("perm-{}x{}", r, k), |c, A| {
            let r0 = upper_pat(c, "r", k, 0);
            family::<A>(c, orth(r, 9), r0, 0, 1)
        })
        .desc("A = P*R0 of full rank, P a signed permutation");
    }
    for (r, k) in [(1, 1), (2, 2), (3, 2), (3, 3), (4, 3)] {
        for pat in 1..1u32 << k {
            job!(v, format!("zero-{}x{}-p{:b}", r, k, pat), |c, A| singular::<A>(c, r, k, pat, 1)).desc("triangular input, the rows of the pattern zero");
            if k < 3 || t {
                job!(v, format!("rank-{}x{}-p{:b}", r, k, pat), |c, A| {
                    let r0 = upper_pat(c, "r", k, pat);
                    family::<A>(c, orth(r, 0), r0, pat, 1)
                })
                .desc("A = Q0*R0, diagonal entries of the pattern zero");
            }
        }
    }
    for e in [-200, 200] {
        for (r, k) in [(1, 1), (2, 1), (2, 2)] {
            job!(v, format!("full-{}x{}", r, k), |c, A| full::<A>(c, r, k, 1, Lay::C)).desc("A and both right-hand sides symbolic multiples of a power of two").unit(e);
        }
    }
    for n in [5, 6, 8, 16, 17, 33] {
        for (extra, i) in [(0, 0), (0, n - 1), (2, n / 2)] {
            job!(v, format!("large-{}x{}-{}", n + extra, n, i), |c, A| {
                let r0 = upper_some(c, "r", n, 0, |p, q| (p, q) == (i, i));
                family::<A>(c, orth(n + extra, 9), r0, 0, 1)
            })
            .secs(20)
            .desc("A = P*R0 of full rank, one entry of R0 and the right-hand sides symbolic");
        }
    }
    job!(v, "shapes", |c, A| shapes::<A>(c)).desc("all shapes of A up to 4x4 and B up to 4x2");
    v
}
