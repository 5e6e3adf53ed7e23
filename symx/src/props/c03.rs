use super::util::*;
use crate::ctx::*;
use crate::engine::{NEG, POS, ZERO};
use crate::job;
use linfa_linalg::cholesky::*;
use linfa_linalg::{LinalgError, Result};
use ndarray::prelude::*;

fn minor<A: Scalar>(a: &Array2<A>, k: usize) -> A {
    det(&a.slice(s![..k, ..k]).to_owned())
}
/// Err is right only if some leading minor is not positive.
fn not_pd<A: Scalar>(c: &mut Ctx, a: &Array2<A>, e: &Result<Array2<A>>) {
    let n = a.nrows();
    c.check("error kind", matches!(e, Err(LinalgError::NotPositiveDefinite)));
    for k in 1..n {
        set_scale::<A>(c, maxabs(a).powi(k as i32));
        let m = minor(a, k);
        if !(m > A::lit(0.0)) {
            c.scale = 1.0;
            return;
        }
    }
    set_scale::<A>(c, maxabs(a).powi(n as i32).max(if c.unit < 1.0 { 0.0 } else { maxabs(a) }));
    A::claim_sign(c, "rejected only if not positive definite", minor(a, n), NEG | ZERO);
    c.scale = 1.0;
}
fn factor<A: Scalar>(c: &mut Ctx, a: &Array2<A>, l: &Array2<A>) {
    let n = a.nrows();
    c.check("shape", l.dim() == (n, n));
    for i in 0..n {
        A::claim_sign(c, &format!("L[{},{}]>0", i, i), l[(i, i)], POS);
        for j in i + 1..n {
            zero(c, &format!("L[{},{}]", i, j), l[(i, j)]);
        }
    }
    let lt = tr(l);
    eq_prod(c, "L*L^T", l, &lt, a);
}
/// all forms of the call agree with `r`; `full` is the input with arbitrary upper triangle
fn forms<A: Scalar>(c: &mut Ctx, full: &Array2<A>, r: &Result<Array2<A>>, lay: Lay) {
    let pad = A::lit(7.0);
    let n = full.nrows();
    let x = laid(full, lay, pad);
    let mut ip = laid(full, lay, pad);
    let mut ipd = laid(full, lay, pad);
    let clean = [
        ("borrowed", x.cholesky()),
        ("view", x.view().cholesky()),
        ("consuming", laid(full, lay, pad).cholesky_into().map(|m| m.to_owned())),
        ("in place", ip.cholesky_inplace().map(|m| m.to_owned())),
    ];
    let dirty = [
        ("borrowed, dirty", x.cholesky_dirty()),
        ("consuming, dirty", laid(full, lay, pad).cholesky_into_dirty().map(|m| m.to_owned())),
        ("in place, dirty", ipd.cholesky_inplace_dirty().map(|m| m.to_owned())),
    ];
    same_mat(c, "input untouched", &x.to_owned(), full);
    for (k, (nm, e)) in clean.into_iter().chain(dirty).enumerate() {
        match (&e, r) {
            (Ok(m), Ok(l)) => {
                let mut want = l.clone();
                if k >= 4 {
                    for i in 0..n {
                        for j in i + 1..n {
                            want[(i, j)] = full[(i, j)];
                        }
                    }
                }
                agree_mat(c, nm, m, &want);
            }
            (Err(LinalgError::NotPositiveDefinite), Err(_)) => c.check(nm, true),
            _ => c.check(nm, false),
        }
    }
}
fn full<A: Scalar>(c: &mut Ctx, n: usize, lay: Lay) {
    let a: Array2<A> = mat(c, "a", n, n); // upper triangle symbolic and unrelated to the lower
    let s = from_lower(&a);
    if fuzzy(c, &pivots(&s)) {
        return;
    }
    let r = laid(&a, lay, A::lit(7.0)).cholesky();
    match &r {
        Ok(l) => factor(c, &s, l),
        e => not_pd(c, &s, e),
    }
    forms(c, &a, &r, lay);
    // the upper triangle is not read
    let nanu = with_upper(&a, A::nan());
    match (nanu.cholesky(), &r) {
        (Ok(m), Ok(l)) => agree_mat(c, "upper triangle of NaN", &m, l),
        (Err(LinalgError::NotPositiveDefinite), Err(_)) => c.check("upper triangle of NaN", true),
        _ => c.check("upper triangle of NaN", false),
    }
}
/// Natively, whether a zero pivot after inexact ones is seen as zero is up to rounding.
pub fn fuzzy<A: Scalar>(c: &Ctx, pivots: &[A]) -> bool {
    if A::SYM {
        return false;
    }
    let mut exact = true;
    for p in pivots {
        let x = p.approx() / c.unit;
        if x.abs() < 1e-9 {
            return !exact;
        }
        let s = x.abs().sqrt() * 8.0;
        exact = exact && s.fract() == 0.0 && (64.0 / s).fract() == 0.0;
    }
    false
}
/// pivots from the leading minors
pub fn pivots<A: Scalar>(s: &Array2<A>) -> Vec<A> {
    let mut last = A::lit(1.0);
    let mut v = vec![];
    if A::SYM {
        return v;
    }
    for k in 1..=s.nrows() {
        let d = det(&s.slice(ndarray::s![..k, ..k]).to_owned());
        v.push(d / last);
        last = d;
    }
    v
}
/// A = L0*D*L0^T with unit lower L0: accepted exactly when D > 0
fn ldl<A: Scalar>(c: &mut Ctx, n: usize) {
    let l0 = unit_lower::<A>(c, "l", n);
    let d: Vec<A> = (0..n).map(|i| A::input(c, &format!("d{}", i))).collect();
    let a = mm(&mm(&l0, &diag(&d)), &tr(&l0));
    if fuzzy(c, &d) {
        return;
    }
    let r = a.cholesky();
    match &r {
        Ok(l) => {
            for i in 0..n {
                set_scale::<A>(c, maxabs(&a));
                A::claim_sign(c, &format!("d{}>0", i), d[i], POS);
                A::claim_sign(c, &format!("L[{},{}]>0", i, i), l[(i, i)], POS);
                for j in 0..n {
                    let lij = l[(i, j)];
                    if j > i {
                        zero(c, &format!("L[{},{}]", i, j), lij);
                    } else {
                        // L[i,j] = l0[i,j] sqrt(d_j)
                        let x = lij * l[(j, j)];
                        A::claim_eq(c, &format!("L[{},{}]*L[{},{}]", i, j, j, j), x, l0[(i, j)] * d[j]);
                    }
                }
                c.scale = 1.0;
            }
        }
        Err(e) => {
            c.check("error kind", matches!(e, LinalgError::NotPositiveDefinite));
            let mut done = false;
            for i in 0..n - 1 {
                if !(d[i] > A::lit(0.0)) {
                    done = true;
                    break;
                }
            }
            if !done {
                set_scale::<A>(c, maxabs(&a));
                A::claim_sign(c, "rejected only if some d is not positive", d[n - 1], NEG | ZERO);
                c.scale = 1.0;
            }
        }
    }
}
/// A = L0*L0^T with L0 of positive diagonal is accepted and L0 comes back
fn llt<A: Scalar>(c: &mut Ctx, n: usize) {
    let l0 = tr(&upper_pat::<A>(c, "l", n, 0));
    for i in 0..n {
        A::assume_sign(c, l0[(i, i)], POS);
    }
    let a = mm(&l0, &tr(&l0));
    if !A::SYM {
        // too close to singular for the concrete run to be asked for acceptance
        let mn = (0..n).map(|i| l0[(i, i)].approx()).fold(f64::INFINITY, f64::min);
        if mn < 1e-4 * maxabs(&l0) {
            return;
        }
    }
    match a.cholesky() {
        Ok(l) => eq_mat(c, "L", &l, &l0),
        Err(_) => c.check("accepted", false),
    }
}
/// special values in the lower triangle
fn special<A: Scalar>(c: &mut Ctx, n: usize, i: usize, j: usize, x: f64) {
    let mut a: Array2<A> = mat(c, "a", n, n);
    a[(i, j)] = A::lit(x);
    let r = a.cholesky();
    match &r {
        Ok(l) => {
            c.check("a NaN is never accepted", !x.is_nan());
            for k in 0..n {
                let d = l[(k, k)];
                c.check(&format!("diagonal {} is positive", k), d > A::lit(0.0));
            }
        }
        Err(e) => c.check("error kind", matches!(e, LinalgError::NotPositiveDefinite)),
    }
}
fn shapes<A: Scalar>(c: &mut Ctx) {
    for r in 0..5 {
        for k in 0..5 {
            if r == k {
                continue;
            }
            let m: Array2<A> = fixed(r, k, 1);
            let mut x = m.clone();
            let mut y = m.clone();
            for e in [
                m.cholesky().map(|_| ()),
                m.cholesky_dirty().map(|_| ()),
                m.clone().cholesky_into().map(|_| ()),
                m.clone().cholesky_into_dirty().map(|_| ()),
                x.cholesky_inplace().map(|_| ()),
                y.cholesky_inplace_dirty().map(|_| ()),
            ] {
                c.check(&format!("{}x{}", r, k), matches!(e, Err(LinalgError::NotSquare { rows, cols }) if rows == r && cols == k));
            }
        }
    }
}

/// Diagonal input with entries of any size: accepted exactly when all are positive.
fn uneven<A: Scalar>(c: &mut Ctx, n: usize) {
    let d: Vec<A> = (0..n).map(|i| A::input(c, &format!("d{}", i))).collect();
    for &x in &d {
        // zero, or within range
        if x != A::lit(0.0) {
            A::assume_sign(c, x * x - A::lit(2f64.powi(-160)), ZERO | POS);
        }
        A::assume_sign(c, A::lit(2f64.powi(160)) - x * x, ZERO | POS);
    }
    let mut a = diag(&d);
    for i in 0..n {
        for j in i + 1..n {
            a[(i, j)] = A::lit(5.0); // not read
        }
    }
    let pd = d.iter().all(|x| *x > A::lit(0.0));
    let r = a.cholesky();
    c.check("accepted exactly when positive definite", r.is_ok() == pd);
    if let Ok(l) = r {
        for i in 0..n {
            A::claim_eq(c, &format!("L[{},{}]^2/d", i, i), l[(i, i)] * l[(i, i)] / d[i], A::lit(1.0));
        }
    }
    let b = Array2::from_elem((n, 1), A::lit(1.0));
    c.check("solves exactly when positive definite", a.solvec(&b).is_ok() == pd);
    c.check("inverts exactly when positive definite", a.invc().is_ok() == pd);
}
fn large<A: Scalar>(c: &mut Ctx, a: &Array2<A>) {
    let n = a.nrows();
    let u = with_upper(a, A::nan());
    let l = match u.cholesky() {
        Ok(l) => l,
        Err(_) => return c.check("accepted", false),
    };
    for i in 0..n {
        A::claim_sign(c, &format!("L[{},{}]>0", i, i), l[(i, i)], POS);
        for j in i + 1..n {
            zero(c, &format!("L[{},{}]", i, j), l[(i, j)]);
        }
    }
    eq_prod(c, "L*L^T", &l, &tr(&l), a);
    // one smaller in the last place: no longer positive definite
    for i in [0, n - 1] {
        let mut b = a.clone();
        b[(i, i)] = b[(i, i)] - l[(i, i)] * l[(i, i)] - A::lit(1.0);
        c.check("rejected", matches!(b.cholesky(), Err(LinalgError::NotPositiveDefinite)));
    }
}

pub fn jobs(t: bool) -> Vec<Job> {
    let mut v = vec![];
    for n in 0..5 {
        for (q, l) in LAYS.into_iter().enumerate() {
            if n == 4 && q > 1 && !t {
                continue;
            }
            job!(v, format!("full-{}-{:?}", n, l), |c, A| full::<A>(c, n, l)).desc("every entry symbolic, upper triangle unrelated");
        }
    }
    for n in 1..4 {
        job!(v, format!("full-{}", n), |c, A| full::<A>(c, n, Lay::C)).desc("every entry symbolic and small against one").tiny();
        job!(v, format!("llt-{}", n), |c, A| llt::<A>(c, n)).desc("A = L0 L0^T, small entries").tiny();
    }
    for n in 1..4 {
        job!(v, format!("uneven-{}", n), |c, A| uneven::<A>(c, n)).desc("diagonal entries of any magnitude, machine epsilon visible").eps(f64::EPSILON);
    }
    for n in [2, 3, 4, 5, 6] {
        if n < 6 || t {
            job!(v, format!("ldl-{}", n), |c, A| ldl::<A>(c, n)).desc("A = L0 D L0^T, unit lower L0 and D symbolic");
        }
        job!(v, format!("llt-{}", n), |c, A| llt::<A>(c, n)).desc("A = L0 L0^T, positive diagonal");
    }
    for n in 1..5 {
        for i in 0..n {
            for j in 0..=i {
                for x in [f64::NAN, f64::INFINITY, f64::NEG_INFINITY] {
                    job!(v, format!("special-{}-{}-{}-{}", n, i, j, x), |c, A| special::<A>(c, n, i, j, x)).desc("one lower entry NaN or infinite, the others symbolic");
                }
            }
        }
    }
    for e in [-300, 300] {
        for n in 1..4 {
            job!(v, format!("full-{}", n), |c, A| full::<A>(c, n, Lay::C)).desc("every entry a symbolic multiple of a power of two").unit(e);
            job!(v, format!("llt-{}", n), |c, A| llt::<A>(c, n)).desc("A = L0 L0^T, entries of L0 symbolic multiples of a power of two").unit(e / 2);
        }
    }
    for n in (6..=12).chain(if t { 13..=16 } else { 16..=16 }).chain([17, 20, 33]) {
        for i in [0, n / 2, n - 1] {
            job!(v, format!("large-{}-{}", n, i), |c, A| {
                let a = large_pd::<A>(c, n, &[i]);
                large(c, &a)
            })
            .desc("A = L0 D L0^T, one entry of D symbolic and positive");
        }
    }
    job!(v, "shapes", |c, A| shapes::<A>(c)).desc("all non-square shapes up to 4x4");
    v
}
