use super::util::*;
use super::{c05, c07, c08, c09, c10};
use crate::ctx::*;
use crate::engine::ZERO;
use crate::job;
use linfa_linalg::bidiagonal::*;
use linfa_linalg::cholesky::*;
use linfa_linalg::eigh::*;
use linfa_linalg::lobpcg::lobpcg;
use linfa_linalg::norm::*;
use linfa_linalg::qr::*;
use linfa_linalg::svd::*;
use linfa_linalg::triangular::*;
use linfa_linalg::tridiagonal::*;
use linfa_linalg::{LinalgError, Order};
use ndarray::prelude::*;

pub const OPS: [&str; 13] = ["qr", "ls", "bidiagonal", "svd", "svals", "norm", "tridiagonal", "eigh", "eigvalsh", "cholesky", "solvec", "triangular", "lobpcg"];
fn finite<A: Scalar, D: ndarray::Dimension>(a: &Array<A, D>) -> bool {
    a.iter().all(|x| x.is_finite())
}
fn positive<A: Scalar>(c: &mut Ctx, nm: &str, l: &Array2<A>) {
    for i in 0..l.nrows() {
        let d = l[(i, i)];
        c.check(&format!("{}: diagonal {} is positive", nm, i), d > A::lit(0.0));
    }
}
/// Runs to the end; a factorisation that is reported is not passed off as one of finite factors.
fn op<A: Scalar>(c: &mut Ctx, a: &Array2<A>, op: usize) {
    let (r, k) = a.dim();
    let b: Array2<A> = fixed(r, 1, 4);
    let nz = |a: &Array2<A>| {
        // a zero on the diagonal is not what this is about
        let mut a = a.clone();
        for i in 0..r.min(k) {
            if a[(i, i)] == A::lit(0.0) {
                a[(i, i)] = A::lit(1.5);
            }
        }
        a
    };
    let bt: Array2<A> = fixed(k, 1, 5);
    match OPS[op] {
        "qr" => {
            if r < k {
                return;
            }
            let d = a.qr().unwrap();
            let (q, rr) = d.clone().into_decomp();
            c.check("Q or R not finite", !(finite(&q) && finite(&rr)));
            let _ = (d.is_invertible(), d.solve(&b), d.solve_tr(&bt), d.inverse());
        }
        "ls" => {
            let _ = a.clone().least_squares(&b);
        }
        "bidiagonal" => {
            let d = a.clone().bidiagonal().unwrap();
            let (u, vt) = (d.generate_u(), d.generate_vt());
            let bb = d.into_b();
            c.check("U, B or Vt not finite", !(finite(&u) && finite(&bb) && finite(&vt)));
        }
        "svd" => {
            if let Ok((u, s, vt)) = a.svd(true, true) {
                c.check("U, S or Vt not finite", !(finite(&u.unwrap()) && finite(&s) && finite(&vt.unwrap())));
            }
        }
        "svals" => {
            for (u, v) in [(false, false), (true, false), (false, true)] {
                if let Ok((u, s, vt)) = a.svd(u, v) {
                    let f = u.iter().all(finite) && finite(&s) && vt.iter().all(finite);
                    c.check("some singular value or vector not finite", !f);
                }
            }
        }
        "norm" => {
            for x in [a.norm_l1(), a.norm_l2(), a.norm_max()] {
                let _ = x;
            }
            c.check("norms not finite", !a.norm_l1().is_finite() && !a.norm_l2().is_finite());
        }
        _ if r != k => (),
        "tridiagonal" => {
            let d = a.clone().sym_tridiagonal().unwrap();
            let q = d.generate_q();
            let (dg, off) = d.into_diagonals();
            c.check("Q or T not finite", !(finite(&q) && finite(&dg) && finite(&off)));
        }
        "eigh" => {
            if let Ok((w, v)) = a.eigh() {
                c.check("values or vectors not finite", !(finite(&w) && finite(&v)));
            }
        }
        "eigvalsh" => {
            for w in [a.eigvalsh(), a.clone().eigvalsh_into()] {
                if let Ok(w) = w {
                    c.check("values not finite", !finite(&w));
                }
            }
        }
        "cholesky" => {
            let mut x = a.clone();
            let mut y = a.clone();
            for (nm, l) in [
                ("borrowed", a.cholesky()),
                ("borrowed, dirty", a.cholesky_dirty()),
                ("consuming", a.clone().cholesky_into()),
                ("consuming, dirty", a.clone().cholesky_into_dirty()),
                ("in place", x.cholesky_inplace().map(|l| l.to_owned())),
                ("in place, dirty", y.cholesky_inplace_dirty().map(|l| l.to_owned())),
            ] {
                match l {
                    Ok(l) => positive(c, nm, &l),
                    Err(e) => c.check(nm, matches!(e, LinalgError::NotPositiveDefinite)),
                }
            }
        }
        "solvec" => {
            let ok = a.cholesky().is_ok();
            let mut x = a.clone();
            c.check("solvec succeeds exactly when the factor exists", x.solvec(&b).is_ok() == ok);
            let mut x = a.clone();
            c.check("consuming solve", x.solvec_into(b.clone()).is_ok() == ok);
            let mut x = a.clone();
            c.check("in-place solve", x.solvec_inplace(&mut b.clone()).is_ok() == ok);
            c.check("invc", a.invc().is_ok() == ok);
            let mut x = a.clone();
            c.check("invc_inplace", x.invc_inplace().is_ok() == ok);
        }
        "triangular" => {
            let a = nz(a);
            for u in [UPLO::Upper, UPLO::Lower] {
                let _ = a.solve_triangular(&b, u);
                let _ = a.is_triangular(u);
                let _ = a.clone().into_triangular(u);
            }
        }
        "lobpcg" => {
            for k in 1..=r.min(2) {
                for o in [Order::Largest, Order::Smallest] {
                    let x = eye::<A>(r).slice(s![.., ..k]).to_owned();
                    let n = std::cell::Cell::new(0);
                    let _ = guarded(|| lobpcg(|v| mm(a, &v.to_owned()), x, |_| n.set(n.get() + 1), None, 1e-3, 3, o).is_ok());
                    c.check("at most three steps", n.get() <= 3);
                }
            }
        }
        _ => unreachable!(),
    }
    c.check("terminates", true);
}
/// special values at the positions given, mirrored when `sym`; elsewhere one symbol and fixed
/// numbers, or all symbols
fn special<A: Scalar>(c: &mut Ctx, o: usize, r: usize, k: usize, at: [(usize, usize, f64); 2], sym: bool, full: bool) {
    let mut a: Array2<A> = if full { mat(c, "a", r, k) } else { fixed(r, k, 31) };
    if !full {
        a[(0, 0)] = A::input(c, "x");
        if r > 2 && k > 2 && r + k < 8 {
            a[(2, 1)] = A::input(c, "y");
        }
    }
    if sym {
        a = from_lower(&a);
    }
    for (i, j, x) in at {
        a[(i, j)] = A::lit(x);
        if sym {
            a[(j, i)] = A::lit(x);
        }
    }
    op(c, &a, o);
}
fn rows<A: Scalar>(c: &mut Ctx, o: usize, r: usize, k: usize, which: usize, x: f64) {
    let mut a: Array2<A> = fixed(r, k, 31);
    a[(0, 0)] = A::input(c, "x");
    match which {
        0 => a.fill(A::lit(x)),
        1 => {
            a.row_mut(r - 1).fill(A::lit(x));
            if r == k {
                a.column_mut(k - 1).fill(A::lit(x));
            }
        }
        _ => {
            for i in 0..r.min(k) {
                a[(i, i)] = A::lit(x);
            }
            if r == k {
                a = from_lower(&a);
            }
        }
    }
    op(c, &a, o);
}
/// every entry of the pattern zero, of either sign
fn zeros<A: Scalar>(c: &mut Ctx, r: usize, k: usize, pat: u32, sym: bool) -> Array2<A> {
    let mut a: Array2<A> = fixed(r, k, 17);
    let mut n = 0;
    for i in 0..r {
        for j in 0..k {
            if sym && j > i {
                continue;
            }
            if pat >> n & 1 == 1 {
                a[(i, j)] = A::input(c, &format!("z{}{}", i, j));
                A::assume_sign(c, a[(i, j)], ZERO);
            } else if r * k <= 4 {
                a[(i, j)] = A::input(c, &format!("a{}{}", i, j));
            }
            n += 1;
        }
    }
    if sym {
        for i in 0..r {
            for j in i + 1..k {
                a[(i, j)] = a[(j, i)];
            }
        }
    }
    a
}
fn signed<A: Scalar>(c: &mut Ctx, o: usize, r: usize, k: usize, pat: u32) {
    let a = zeros::<A>(c, r, k, pat, o == 2 || o == 3);
    match o {
        0 => {
            let (q, rr) = a.qr().unwrap().into_decomp();
            c05::post(c, &a, &q, &rr);
        }
        1 => c08::post(c, &a, Lay::C),
        2 => c07::post(c, &a, Lay::C),
        3 => c09::exact(c, &a, Lay::C),
        _ => c10::exact(c, &a, Lay::C),
    }
}
const SIGNED: [&str; 5] = ["qr", "bidiagonal", "tridiagonal", "eigh", "svd"];

pub fn jobs(t: bool) -> Vec<Job> {
    let mut v = vec![];
    let specials = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY];
    for (o, nm) in OPS.into_iter().enumerate() {
        let sq = o >= 6;
        let sym = (6..11).contains(&o) || o == 12;
        for r in 1..=4 {
            for k in 1..=4 {
                if sq && r != k || nm == "qr" && r < k || nm == "lobpcg" && r > 3 {
                    continue;
                }
                for i in 0..r {
                    for j in 0..k {
                        if sym && j > i {
                            continue;
                        }
                        for x in specials {
                            if r * k > 9 && r != k && !t {
                                continue;
                            }
                            let full = r * k <= 4;
                            job!(v, format!("one-{}-{}x{}-{}{}-{}", nm, r, k, i, j, x), |c, A| special::<A>(c, o, r, k, [(i, j, x), (i, j, x)], sym, full)).desc("one special value, the other entries symbolic (up to four entries) or fixed with up to two symbols").secs(15);
                        }
                        // a second one
                        let cells: Vec<(usize, usize)> = (0..r).flat_map(|p| (0..k).map(move |q| (p, q))).filter(|&(p, q)| (p, q) > (i, j) && !(sym && q > p)).collect();
                        for (p, q) in cells {
                            if r.max(k) > if t { 4 } else { 3 } {
                                continue;
                            }
                            for (x, y) in [(f64::NAN, f64::INFINITY), (f64::INFINITY, f64::INFINITY), (f64::INFINITY, f64::NEG_INFINITY), (f64::NAN, f64::NAN)] {
                                job!(v, format!("two-{}-{}x{}-{}{}{}{}-{}-{}", nm, r, k, i, j, p, q, x, y), |c, A| special::<A>(c, o, r, k, [(i, j, x), (p, q, y)], sym, false)).desc("two special values").secs(15);
                            }
                        }
                    }
                }
                for w in 0..3 {
                    for x in specials {
                        job!(v, format!("many-{}-{}x{}-{}-{}", nm, r, k, w, x), |c, A| rows::<A>(c, o, r, k, w, x)).desc("all entries, the last row (and column), or the diagonal special").secs(15);
                    }
                }
            }
        }
    }
    for (o, nm) in SIGNED.into_iter().enumerate() {
        for (r, k) in [(1, 1), (2, 1), (1, 2), (2, 2), (3, 1), (3, 2), (3, 3)] {
            let sym = o == 2 || o == 3;
            if sym && r != k || o == 0 && r < k {
                continue;
            }
            let cells = if sym { r * (r + 1) / 2 } else { r * k };
            for pat in 1..1u32 << cells {
                if cells > 4 && !t && pat.count_ones() > 2 && pat.count_ones() < cells as u32 - 1 {
                    continue;
                }
                // with a single zero the iteration does not end exactly
                if o >= 3 && r == 3 && k == 3 && (pat.count_ones() == 1 || !t && pat.count_ones() % 2 == 0) {
                    continue;
                }
                job!(v, format!("zero-{}-{}x{}-p{:b}", nm, r, k, pat), |c, A| signed::<A>(c, o, r, k, pat)).desc("the entries of the pattern are zeros of either sign").zsign().secs(20);
            }
        }
    }
    v
}
