use super::c07::{emb, tridiag};
use super::util::*;
use crate::ctx::*;
use crate::engine::{POS, ZERO};
use crate::job;
use linfa_linalg::eigh::*;
use linfa_linalg::LinalgError;
use ndarray::prelude::*;

/// Exact eigenpairs when nothing but exact zeros is dropped.
pub fn exact<A: Scalar>(c: &mut Ctx, a: &Array2<A>, l: Lay) {
    let n = a.nrows();
    let pad = A::lit(7.0);
    let (w, v) = match laid(a, l, pad).eigh() {
        Ok(r) => r,
        Err(_) => return c.check("succeeds", false),
    };
    let ok = w.len() == n && v.dim() == (n, n);
    c.check("shapes", ok);
    if !ok {
        return;
    }
    orthonormal(c, "V", &v);
    let av = mm(a, &v);
    let d = diag(&w.to_vec());
    eq_prod(c, "A*V = V*diag(w)", &v, &d, &av);
    set_scale::<A>(c, maxabs(a));
    values(c, a, &w, l);
    let mut t = A::lit(0.0);
    for i in 0..n {
        t = t + w[i] - a[(i, i)];
    }
    zero(c, "trace", t);
    c.scale = 1.0;
}
fn values<A: Scalar>(c: &mut Ctx, a: &Array2<A>, w: &Array1<A>, l: Lay) {
    let pad = A::lit(7.0);
    for (nm, e) in [("values only", laid(a, l, pad).eigvalsh()), ("values only, consuming", laid(a, l, pad).eigvalsh_into())] {
        match e {
            Ok(w2) if w2.len() == w.len() => {
                for i in 0..w.len() {
                    A::claim_eq(c, &format!("{}[{}]", nm, i), w2[i], w[i]);
                }
            }
            _ => c.check(nm, false),
        }
    }
}
/// With a coarse tolerance: V is orthogonal, w_i is exactly the Rayleigh quotient of v_i, and what
/// was dropped is bounded by the tolerance.
fn invariant<A: Scalar>(c: &mut Ctx, a: &Array2<A>, big: f64) {
    let n = a.nrows();
    let (w, v) = match a.eigh() {
        Ok(r) => r,
        Err(_) => return c.check("succeeds", false),
    };
    orthonormal(c, "V", &v);
    let av = mm(a, &v);
    let vav = mm(&tr(&v), &av);
    set_scale::<A>(c, maxabs(a));
    for i in 0..n {
        A::claim_eq(c, &format!("Rayleigh quotient {}", i), vav[(i, i)], w[i]);
    }
    values(c, a, &w, Lay::C);
    // |off(V^T A V)|_F^2 <= bound * (eps * |A|)^2
    let mut off = A::lit(0.0);
    for i in 0..n {
        for j in 0..i {
            off = off + vav[(i, j)] * vav[(i, j)];
        }
    }
    let e = if A::SYM { A::epsilon() } else { A::epsilon() * A::lit(100.0) };
    let b = A::lit(4.0 * (n - 1) as f64 * big * big) * e * e;
    nonneg(c, "dropped part", b - off);
    c.scale = 1.0;
}
fn full<A: Scalar>(c: &mut Ctx, n: usize, l: Lay) {
    let a: Array2<A> = symm(c, "a", n);
    exact(c, &a, l);
}
fn bounded<A: Scalar>(c: &mut Ctx, x: A, b: f64) {
    A::assume_sign(c, A::lit(b) - x, ZERO | POS);
    A::assume_sign(c, A::lit(b) + x, ZERO | POS);
}
/// Blocks of order at most two on the diagonal; the last entry is the largest in magnitude.
fn blocks<A: Scalar>(c: &mut Ctx, n: usize, w: usize, pat: u32, l: Lay) {
    let a = member::<A>(c, n, w, pat);
    exact(c, &a, l);
}
pub fn member<A: Scalar>(c: &mut Ctx, n: usize, w: usize, pat: u32) -> Array2<A> {
    let mut t = tridiag::<A>(c, n, pat, n);
    let big = A::lit(8.0);
    for i in 0..n {
        for j in 0..=i {
            if (i, j) != (n - 1, n - 1) {
                bounded(c, t[(i, j)], 8.0);
            }
        }
    }
    if pat >> (n - 2) & 1 == 1 {
        // a decoupled last entry may fix the scale
        t[(n - 1, n - 1)] = big;
    } else {
        bounded(c, t[(n - 1, n - 1)], 8.0);
    }
    let q = emb::<A>(n, w);
    mm(&mm(&q, &t), &tr(&q))
}
/// An implicit QR sweep on a tridiagonal matrix. The trailing block is chosen so that the
/// Wilkinson shift is rational and the last entry deflates after few sweeps.
fn sweep<A: Scalar>(c: &mut Ctx, n: usize, k: usize, m: usize) {
    let tail = [(6.0, 4.0, 0.0), (-6.0, 4.0, 0.0), (0.0, 3.0, 0.0), (3.0, 2.0, 0.0)][k];
    let mut t = Array2::from_elem((n, n), A::lit(0.0));
    let d0 = if m & 1 == 1 { A::input(c, "d0") } else { A::lit(8.0) };
    let e0 = if m & 2 == 2 { A::input(c, "e0") } else { A::lit(1.0) };
    A::assume_sign(c, d0 - A::lit(4.0), ZERO | POS);
    A::assume_sign(c, A::lit(8.0) - d0, ZERO | POS);
    bounded(c, e0, 1.0);
    t[(0, 0)] = d0;
    for i in 0..n - 1 {
        let e = if i == 0 {
            e0
        } else if i == n - 2 {
            A::lit(tail.1)
        } else {
            A::lit(0.5)
        };
        t[(i, i + 1)] = e;
        t[(i + 1, i)] = e;
    }
    t[(n - 2, n - 2)] = A::lit(tail.0);
    t[(n - 1, n - 1)] = A::lit(tail.2);
    if n > 3 {
        t[(1, 1)] = A::lit(-5.0);
    }
    let a = if m & 1 == 0 {
        t
    } else {
        // a decoupled entry fixes the scale
        let mut a = Array2::from_elem((n + 1, n + 1), A::lit(0.0));
        a.slice_mut(s![1.., 1..]).assign(&t);
        a[(0, 0)] = A::lit(8.0);
        a
    };
    invariant(c, &a, 8.0);
}
/// 2x2 with a visible tolerance
fn coarse2<A: Scalar>(c: &mut Ctx) {
    let t = tridiag::<A>(c, 2, 0, 2);
    bounded(c, t[(0, 0)], 8.0);
    bounded(c, t[(1, 1)], 8.0);
    bounded(c, t[(0, 1)], 8.0);
    // large enough that the rotation is not below the tolerance itself
    A::assume_sign(c, t[(0, 0)].abs() + t[(1, 1)].abs() - A::lit(8.0), ZERO | POS);
    let mut a = Array2::from_elem((3, 3), A::lit(0.0));
    a.slice_mut(s![1.., 1..]).assign(&t);
    a[(0, 0)] = A::lit(8.0);
    invariant(c, &a, 8.0);
}
fn shapes<A: Scalar>(c: &mut Ctx) {
    for r in 0..5 {
        for k in 0..5 {
            let a = Array2::from_shape_fn((r, k), |(i, j)| A::lit(if i == j { i as f64 - 1.0 } else { 0.0 }));
            let ns = |e: &LinalgError| matches!(e, LinalgError::NotSquare { rows, cols } if *rows == r && *cols == k);
            for (nm, e) in [("eigh", a.eigh()), ("eigh_into", a.clone().eigh_into())] {
                c.check(
                    &format!("{} {}x{}", nm, r, k),
                    match &e {
                        Ok((w, v)) => r == k && w.len() == r && v.dim() == (r, r),
                        Err(e) => r != k && ns(e),
                    },
                );
            }
            for (nm, e) in [("eigvalsh", a.eigvalsh()), ("eigvalsh_into", a.clone().eigvalsh_into())] {
                c.check(
                    &format!("{} {}x{}", nm, r, k),
                    match &e {
                        Ok(w) => r == k && w.len() == r,
                        Err(e) => r != k && ns(e),
                    },
                );
            }
        }
    }
}
/// blocks [[d, e], [e, d]] and single entries; block k (from either end) symbolic
pub fn big<A: Scalar>(c: &mut Ctx, n: usize, w: usize, k: usize) -> Array2<A> {
    let mut t = Array2::from_elem((n, n), A::lit(0.0));
    let mut i = k % 2;
    let mut b = 0;
    for j in 0..n {
        t[(j, j)] = A::frac(j as i64 * 5 % 7 - 3, 1);
    }
    t[(n - 1, n - 1)] = A::lit(8.0);
    let pick = if k < 2 { 0 } else { (n - k % 2) / 2 - 1 };
    while i + 1 < n {
        let (d, e) = if b == pick {
            let (d, e) = (A::input(c, "d"), A::input(c, "e"));
            bounded(c, d, 4.0);
            bounded(c, e, 4.0);
            (d, e)
        } else {
            (A::frac(b as i64 - 1, 1), A::frac(b as i64 + 2, 2))
        };
        t[(i, i)] = d;
        t[(i + 1, i + 1)] = d;
        t[(i, i + 1)] = e;
        t[(i + 1, i)] = e;
        b += 1;
        i += 2;
    }
    let q = emb::<A>(n, w);
    mm(&mm(&q, &t), &tr(&q))
}
fn large<A: Scalar>(c: &mut Ctx, n: usize, w: usize, k: usize) {
    let a = big::<A>(c, n, w, k);
    exact(c, &a, Lay::C)
}

pub fn jobs(t: bool) -> Vec<Job> {
    let mut v = vec![];
    for n in 1..3 {
        for l in LAYS {
            job!(v, format!("full-{}-{:?}", n, l), |c, A| full::<A>(c, n, l)).desc("every entry of the symmetric matrix symbolic");
        }
    }
    for n in [2, 3, 4] {
        for pat in 0..1u32 << (n - 1) {
            // at most two consecutive couplings
            if !pat & !(pat >> 1) & ((1 << (n - 2)) - 1) != 0 {
                continue;
            }
            for w in [8, 9, 0] {
                if w == 0 && n != 3 {
                    continue;
                }
                job!(v, format!("blocks{}-{}-p{:b}", w, n, pat), |c, A| blocks::<A>(c, n, w, pat, LAYS[(pat as usize + w) % 6]))
                    .secs(if t { 200 } else { 40 })
                    .desc("blocks of order one and two on the diagonal, symbolic entries in [-8,8]");
            }
        }
    }
    for e in [0.5, 0.125] {
        job!(v, format!("coarse-2-{}", e), |c, A| coarse2::<A>(c)).eps(e).desc("8 (+) symbolic 2x2, visible deflation tolerance");
    }
    for n in [3, 4] {
        for k in 0..4 {
            for m in [1, 2, 3] {
                for e in [1.0 / 16.0, 1.0 / 64.0] {
                    if !t && (n == 4 || e < 0.06) {
                        continue;
                    }
                    job!(v, format!("sweep-{}-{}-{}-{}", n, k, m, e), |c, A| sweep::<A>(c, n, k, m))
                        .eps(e)
                        .secs(if t { 300 } else { 40 })
                        .desc("8 (+) tridiagonal matrix, leading entries symbolic, implicit QR sweeps, visible deflation tolerance");
                }
            }
        }
    }
    for e in [-600, 600] {
        for n in 1..3 {
            job!(v, format!("full-{}", n), |c, A| full::<A>(c, n, Lay::C)).desc("every entry a symbolic multiple of a power of two").unit(e);
        }
        for (n, pat) in [(3, 1), (3, 2), (4, 2)] {
            job!(v, format!("fam-{}-p{:b}", n, pat), |c, A| {
                let a = member::<A>(c, n, 9, pat);
                let a = a.mapv(|x| x * A::lit(c.unit));
                exact::<A>(c, &a, Lay::C)
            })
            .secs(20)
            .desc("blocks of order one and two, entries multiples of a power of two")
            .unit(e);
        }
    }
    for n in [5, 6, 7, 8, 9, 12, 17, 33] {
        for k in 0..4 {
            for w in [8, 9] {
                job!(v, format!("large{}-{}-{}", w, n, k), |c, A| large::<A>(c, n, w, k)).secs(20).desc("blocks of order one and two with rational spectrum, one block symbolic");
            }
        }
    }
    job!(v, "shapes", |c, A| shapes::<A>(c)).desc("all shapes up to 4x4");
    v
}
