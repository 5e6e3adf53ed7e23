use super::util::*;
use crate::ctx::*;
use crate::job;
use linfa_linalg::bidiagonal::Bidiagonal;
use linfa_linalg::cholesky::*;
use linfa_linalg::eigh::*;
use linfa_linalg::lobpcg::lobpcg;
use linfa_linalg::norm::Norm;
use linfa_linalg::qr::*;
use linfa_linalg::svd::*;
use linfa_linalg::triangular::*;
use linfa_linalg::tridiagonal::SymmetricTridiagonal;
use linfa_linalg::{LinalgError, Order, Result};
use ndarray::prelude::*;

fn not_square<T>(r: &Result<T>, n: usize, m: usize) -> bool {
    matches!(r, Err(LinalgError::NotSquare { rows, cols }) if *rows == n && *cols == m)
}
fn not_thin<T>(r: &Result<T>, n: usize, m: usize) -> bool {
    matches!(r, Err(LinalgError::NotThin { rows, cols }) if *rows == n && *cols == m)
}
fn wrong_rows<T>(r: &Result<T>, e: usize, a: usize) -> bool {
    matches!(r, Err(LinalgError::WrongRows { expected, actual }) if *expected == e && *actual == a)
}
fn empty<T>(r: &Result<T>) -> bool {
    matches!(r, Err(LinalgError::EmptyMatrix))
}
fn npd<T>(r: &Result<T>) -> bool {
    matches!(r, Err(LinalgError::NotPositiveDefinite))
}
fn singular<T>(r: &Result<T>) -> bool {
    matches!(r, Err(LinalgError::NonInvertible))
}
fn ok<T>(r: &Result<T>, f: impl Fn(&T) -> bool) -> bool {
    matches!(r, Ok(x) if f(x))
}
/// one symbolic entry per line, at scattered places
fn sparse<A: Scalar>(c: &mut Ctx, n: usize, m: usize) -> Array2<A> {
    let mut a = Array2::from_elem((n, m), A::lit(0.0));
    for i in 0..n.min(m) {
        let x = A::input(c, &format!("a{}", i));
        let (p, q) = if n <= m { (i, (i + 1) % m) } else { ((i + 1) % n, i) };
        a[(p, q)] = x;
    }
    a
}
/// symmetric with a symbolic anti-diagonal
fn anti<A: Scalar>(c: &mut Ctx, n: usize) -> Array2<A> {
    let mut a = Array2::from_elem((n, n), A::lit(0.0));
    for i in 0..n.div_ceil(2) {
        let x = A::input(c, &format!("a{}", i));
        a[(i, n - 1 - i)] = x;
        a[(n - 1 - i, i)] = x;
    }
    a
}
/// every entry symbolic where the values must not matter
fn input<A: Scalar>(c: &mut Ctx, n: usize, m: usize, valid: bool) -> Array2<A> {
    if valid {
        sparse(c, n, m)
    } else {
        mat(c, "a", n, m)
    }
}
fn pad<A: Scalar>() -> A {
    A::lit(7.0)
}
fn uplo(i: usize) -> UPLO {
    if i == 0 {
        UPLO::Upper
    } else {
        UPLO::Lower
    }
}
fn triangular<A: Scalar>(c: &mut Ctx, n: usize, m: usize) {
    let a: Array2<A> = mat(c, "a", n, m);
    for l in LAYS {
        for u in 0..2 {
            let x = laid(&a, l, pad());
            let mut y = x.clone();
            let t = format!("{:?} {}", l, u);
            let inp = y.triangular_inplace(uplo(u)).map(|x| x.dim());
            let r = x.clone().into_triangular(uplo(u));
            if n == m {
                c.check(&format!("{}: triangular", t), ok(&r, |x| x.dim() == (n, n)) && ok(&inp, |x| *x == (n, n)));
                c.check(&format!("{}: is triangular", t), r.unwrap().is_triangular(uplo(u)));
            } else {
                c.check(&format!("{}: not square", t), not_square(&r, n, m) && not_square(&inp, n, m));
                c.check(&format!("{}: is not triangular", t), !x.is_triangular(uplo(u)));
            }
        }
    }
}
fn solve<A: Scalar>(c: &mut Ctx, n: usize, m: usize) {
    let mut a: Array2<A> = mat(c, "a", n, m);
    if n == m {
        for i in 0..n {
            a[(i, i)] = A::lit(2.0);
        }
    }
    for l in LAYS {
        let x = laid(&a, l, pad());
        for br in 0..n.max(m) + 2 {
            for bc in 0..3 {
                let b = laid(&fixed::<A>(br, bc, 5), l, pad());
                for u in 0..2 {
                    let mut z = b.clone();
                    let p = x.solve_triangular(&b, uplo(u));
                    let q = x.solve_triangular_into(b.clone(), uplo(u));
                    let r = x.solve_triangular_inplace(&mut z, uplo(u)).map(|x| x.dim());
                    let good = if n != m {
                        not_square(&p, n, m) && not_square(&q, n, m) && not_square(&r, n, m)
                    } else if br != n {
                        wrong_rows(&p, n, br) && wrong_rows(&q, n, br) && wrong_rows(&r, n, br)
                    } else {
                        ok(&p, |x| x.dim() == (n, bc)) && ok(&q, |x| x.dim() == (n, bc)) && ok(&r, |x| *x == (n, bc))
                    };
                    c.check(&format!("{:?} {} with {}x{}", l, u, br, bc), good);
                }
            }
        }
    }
}
fn chol<A: Scalar>(c: &mut Ctx, n: usize, m: usize) {
    let mut a: Array2<A> = mat(c, "a", n, m);
    if n == m {
        a = anti_diag_dominant(&a, n);
    }
    for l in LAYS {
        let x = laid(&a, l, pad());
        let dim = |r: &Result<Array2<A>>| if n == m { ok(r, |x| x.dim() == (n, n)) || npd(r) } else { not_square(r, n, m) };
        let mut y = x.clone();
        let mut z = x.clone();
        let i1 = y.cholesky_inplace().map(|x| x.to_owned());
        let i2 = z.cholesky_inplace_dirty().map(|x| x.to_owned());
        let good = dim(&x.cholesky()) && dim(&x.cholesky_dirty()) && dim(&x.clone().cholesky_into()) && dim(&x.clone().cholesky_into_dirty()) && dim(&i1) && dim(&i2);
        c.check(&format!("{:?}: factor", l), good);
        c.check(&format!("{:?}: inverse", l), dim(&x.invc()) && dim(&x.clone().invc_inplace()));
        for br in 0..n.max(m) + 2 {
            for bc in 0..3 {
                let b = laid(&fixed::<A>(br, bc, 5), l, pad());
                let mut w = b.clone();
                let (p, q, r) = (x.clone().solvec(&b), x.clone().solvec_into(b.clone()), x.clone().solvec_inplace(&mut w).map(|x| x.to_owned()));
                let g = |r: &Result<Array2<A>>| {
                    if n != m {
                        not_square(r, n, m)
                    } else if br != n {
                        wrong_rows(r, n, br) || npd(r)
                    } else {
                        ok(r, |x| x.dim() == (n, bc)) || npd(r)
                    }
                };
                c.check(&format!("{:?}: solve with {}x{}", l, br, bc), g(&p) && g(&q) && g(&r));
            }
        }
    }
}
/// symbols on the diagonal and one below it
fn anti_diag_dominant<A: Scalar>(a: &Array2<A>, n: usize) -> Array2<A> {
    let mut o = Array2::from_elem((n, n), A::lit(0.0));
    for i in 0..n {
        o[(i, i)] = a[(i, i)];
    }
    if n > 1 {
        o[(n - 1, 0)] = a[(n - 1, 0)];
        o[(0, n - 1)] = a[(n - 1, 0)];
    }
    o
}
fn qr<A: Scalar>(c: &mut Ctx, n: usize, m: usize) {
    let a: Array2<A> = input(c, n, m, n >= m);
    for l in LAYS {
        let x = laid(&a, l, pad());
        let (p, q) = (x.qr(), x.clone().qr_into());
        if n < m {
            c.check(&format!("{:?}: not thin", l), not_thin(&p, n, m) && not_thin(&q, n, m));
            continue;
        }
        let (p, q) = match (p, q) {
            (Ok(p), Ok(q)) => (p, q),
            _ => {
                c.check(&format!("{:?}: factors", l), false);
                continue;
            }
        };
        c.check(&format!("{:?}: Q", l), p.generate_q().dim() == (n, m) && q.generate_q().dim() == (n, m));
        let inv = p.inverse();
        c.check(&format!("{:?}: inverse", l), if n == m { ok(&inv, |x| x.dim() == (n, n)) || singular(&inv) } else { not_square(&inv, n, m) });
        for br in 0..n.max(m) + 2 {
            for bc in 0..3 {
                let b = laid(&fixed::<A>(br, bc, 5), l, pad());
                let g = |r: &Result<Array2<A>>, need: usize, out: usize| if br != need { wrong_rows(r, need, br) } else { ok(r, |x| x.dim() == (out, bc)) || singular(r) };
                c.check(
                    &format!("{:?}: solve with {}x{}", l, br, bc),
                    g(&p.solve(&b), n, m) && g(&q.solve_into(b.clone()), n, m) && g(&p.solve_tr(&b), m, n) && g(&q.solve_tr_into(b.clone()), m, n),
                );
            }
        }
        let (u, r) = p.into_decomp();
        c.check(&format!("{:?}: Q and R", l), u.dim() == (n, m) && r.dim() == (m, m) && q.into_r().dim() == (m, m));
    }
}
fn lsq<A: Scalar>(c: &mut Ctx, n: usize, m: usize) {
    let a: Array2<A> = sparse(c, n, m);
    for l in LAYS {
        let x = laid(&a, l, pad());
        for br in 0..n.max(m) + 2 {
            for bc in 0..3 {
                let b = laid(&fixed::<A>(br, bc, 5), l, pad());
                let g = |r: &Result<Array2<A>>| if br != n { wrong_rows(r, n, br) } else { ok(r, |x| x.dim() == (m, bc)) || singular(r) };
                c.check(&format!("{:?} with {}x{}", l, br, bc), g(&x.clone().least_squares(&b)) && g(&x.clone().least_squares_into(b.clone())));
            }
        }
    }
}
fn tridiag<A: Scalar>(c: &mut Ctx, n: usize, m: usize) {
    let a: Array2<A> = if n == m { anti(c, n) } else { mat(c, "a", n, m) };
    for l in LAYS {
        let r = laid(&a, l, pad()).sym_tridiagonal();
        let good = if n != m {
            not_square(&r, n, m)
        } else if n == 0 {
            empty(&r)
        } else {
            ok(&r, |d| {
                let (x, y) = d.clone().into_diagonals();
                d.generate_q().dim() == (n, n) && x.len() == n && y.len() == n - 1 && d.clone().into_tridiag_matrix().dim() == (n, n)
            })
        };
        c.check(&format!("{:?}", l), good);
    }
}
fn bidiag<A: Scalar>(c: &mut Ctx, n: usize, m: usize) {
    let a: Array2<A> = sparse(c, n, m);
    let k = n.min(m);
    for l in LAYS {
        let r = laid(&a, l, pad()).bidiagonal();
        let good = if k == 0 {
            empty(&r)
        } else {
            ok(&r, |d| {
                let (x, y) = d.clone().into_diagonals();
                d.is_upper_diag() == (n >= m)
                    && d.generate_u().dim() == (n, k)
                    && d.generate_vt().dim() == (k, m)
                    && d.clone().into_b().dim() == (k, k)
                    && x.len() == k
                    && y.len() == k - 1
            })
        };
        c.check(&format!("{:?}", l), good);
    }
}
fn eig<A: Scalar>(c: &mut Ctx, n: usize, m: usize) {
    let a: Array2<A> = if n == m { anti(c, n) } else { mat(c, "a", n, m) };
    for l in LAYS {
        let x = laid(&a, l, pad());
        let (p, q, r, s) = (x.eigh(), x.clone().eigh_into(), x.eigvalsh(), x.clone().eigvalsh_into());
        let good = if n != m {
            not_square(&p, n, m) && not_square(&q, n, m) && not_square(&r, n, m) && not_square(&s, n, m)
        } else {
            ok(&p, |(e, v)| e.len() == n && v.dim() == (n, n)) && ok(&q, |(e, v)| e.len() == n && v.dim() == (n, n)) && ok(&r, |e| e.len() == n) && ok(&s, |e| e.len() == n)
        };
        c.check(&format!("{:?}", l), good);
        if let Ok(p) = p {
            let (e, v) = p.sort_eig(Order::Largest);
            c.check(&format!("{:?} sorted", l), e.len() == n && v.dim() == (n, n) && r.unwrap().sort_eig(Order::Smallest).len() == n);
        }
    }
}
fn svd<A: Scalar>(c: &mut Ctx, n: usize, m: usize) {
    let a: Array2<A> = sparse(c, n, m);
    let k = n.min(m);
    for l in LAYS {
        let x = laid(&a, l, pad());
        for (cu, cv) in [(true, true), (true, false), (false, true), (false, false)] {
            for r in [x.svd(cu, cv), x.clone().svd_into(cu, cv)] {
                let good = if k == 0 {
                    empty(&r)
                } else {
                    ok(&r, |(u, s, v)| {
                        s.len() == k && u.is_some() == cu && v.is_some() == cv && u.as_ref().map_or(true, |u| u.dim() == (n, k)) && v.as_ref().map_or(true, |v| v.dim() == (k, m))
                    })
                };
                c.check(&format!("{:?} {} {}", l, cu, cv), good);
                if let Ok(t) = r {
                    let (u, s, v) = t.sort_svd_desc();
                    c.check(
                        &format!("{:?} {} {} sorted", l, cu, cv),
                        s.len() == k && u.map_or(!cu, |u| u.dim() == (n, k)) && v.map_or(!cv, |v| v.dim() == (k, m)),
                    );
                }
            }
        }
    }
}
fn norms<A: Scalar>(c: &mut Ctx, n: usize, m: usize) {
    let a: Array2<A> = mat(c, "a", n, m);
    for l in LAYS {
        let x = laid(&a, l, pad());
        let (p, q) = (x.norm_l1(), x.norm_l2());
        nonneg(c, &format!("{:?} l1", l), p);
        nonneg(c, &format!("{:?} l2", l), q);
        if n * m > 0 {
            nonneg(c, &format!("{:?} max", l), x.norm_max());
        } else {
            // no panic is all there is to ask
            let _ = x.norm_max();
        }
    }
}
fn blocks<A: Scalar>(c: &mut Ctx, n: usize) {
    let a: Array2<A> = diag(&(0..n).map(|i| A::input(c, &format!("a{}", i))).collect::<Vec<_>>());
    for k in n + 1..n + 3 {
        let x = mat::<A>(c, "x", n, k);
        let r = lobpcg(|v| mm(&a, &v.to_owned()), x, |_| {}, None, 1e-3, 2, Order::Largest);
        c.check(&format!("block of {}", k), matches!(r, Err((LinalgError::NotThin { rows, cols }, None)) if rows == n && cols == k));
    }
}

pub fn jobs(t: bool) -> Vec<Job> {
    let mut v = vec![];
    let top = if t { 7 } else { 6 };
    for n in 0..top {
        for m in 0..top {
            let small = n.max(m) <= if t { 5 } else { 4 };
            job!(v, format!("triangular-{}x{}", n, m), |c, A| triangular::<A>(c, n, m)).desc("entries symbolic, all layouts");
            job!(v, format!("solve-{}x{}", n, m), |c, A| solve::<A>(c, n, m)).desc("entries off the diagonal symbolic, all layouts, right-hand sides of every height");
            if small || n != m {
                job!(v, format!("cholesky-{}x{}", n, m), |c, A| chol::<A>(c, n, m)).desc("diagonal and corner symbolic, all layouts, right-hand sides of every height");
                job!(v, format!("norm-{}x{}", n, m), |c, A| norms::<A>(c, n.min(2), m.min(2))).desc("entries symbolic, all layouts");
            }
            if small || n < m {
                job!(v, format!("qr-{}x{}", n, m), |c, A| qr::<A>(c, n, m)).desc("wide: all entries symbolic; else one per line; all layouts, right-hand sides of every height");
            }
            if small {
                job!(v, format!("lsq-{}x{}", n, m), |c, A| lsq::<A>(c, n, m)).desc("one symbolic entry per line, all layouts, right-hand sides of every height");
            }
            job!(v, format!("tridiagonal-{}x{}", n, m), |c, A| tridiag::<A>(c, n, m)).desc("square: anti-diagonal symbolic, else all entries");
            job!(v, format!("eigh-{}x{}", n, m), |c, A| eig::<A>(c, n, m)).desc("square: anti-diagonal symbolic, else all entries");
            if small {
                job!(v, format!("bidiagonal-{}x{}", n, m), |c, A| bidiag::<A>(c, n, m)).desc("one symbolic entry per line");
                job!(v, format!("svd-{}x{}", n, m), |c, A| svd::<A>(c, n, m)).desc("one symbolic entry per line");
            }
        }
        job!(v, format!("block-{}", n), |c, A| blocks::<A>(c, n)).desc("block wider than the problem, all entries symbolic");
    }
    v
}
