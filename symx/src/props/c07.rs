use super::util::*;
use crate::ctx::*;
use crate::job;
use linfa_linalg::tridiagonal::*;
use linfa_linalg::LinalgError;
use ndarray::prelude::*;

pub fn post<A: Scalar>(c: &mut Ctx, a: &Array2<A>, l: Lay) {
    let n = a.nrows();
    let pad = A::lit(7.0);
    let d = laid(a, l, pad).sym_tridiagonal().unwrap();
    let q = d.generate_q();
    let (dg, of) = d.clone().into_diagonals();
    let t = d.into_tridiag_matrix().to_owned();
    c.check("shapes", q.dim() == (n, n) && t.dim() == (n, n) && dg.len() == n && of.len() + 1 == n);
    orthonormal(c, "Q", &q);
    for i in 0..n {
        A::claim_same(c, &format!("diagonal {}", i), dg[i], t[(i, i)]);
        if i + 1 < n {
            nonneg(c, &format!("off-diagonal {}", i), of[i]);
            A::claim_same(c, &format!("T[{},{}]", i, i + 1), t[(i, i + 1)], of[i]);
            A::claim_same(c, &format!("T[{},{}]", i + 1, i), t[(i + 1, i)], of[i]);
        }
        for j in 0..n {
            if i > j + 1 || j > i + 1 {
                A::claim_same(c, &format!("T[{},{}]", i, j), t[(i, j)], A::lit(0.0));
            }
        }
    }
    let qt = mm(&q, &t);
    eq_prod(c, "Q*T*Q^T", &qt, &tr(&q), a);
}
fn full<A: Scalar>(c: &mut Ctx, n: usize, l: Lay) {
    let a: Array2<A> = symm(c, "a", n);
    post(c, &a, l);
}
/// symmetric tridiagonal, off-diagonal entries of `pat` zero, the first `free` of each symbolic
pub fn tridiag<A: Scalar>(c: &mut Ctx, n: usize, pat: u32, free: usize) -> Array2<A> {
    let mut t = Array2::from_elem((n, n), A::lit(0.0));
    for i in 0..n {
        t[(i, i)] = if i < free { A::input(c, &format!("d{}", i)) } else { A::frac(i as i64 * 3 - 4, 2) };
        if i + 1 < n && pat.checked_shr(i as u32).unwrap_or(0) & 1 == 0 {
            let x = if i < free { A::input(c, &format!("e{}", i)) } else { A::frac(i as i64 + 1, 1) };
            t[(i, i + 1)] = x;
            t[(i + 1, i)] = x;
        }
    }
    t
}
/// orthogonal matrix that keeps the first axis
pub fn emb<A: Scalar>(n: usize, which: usize) -> Array2<A> {
    let mut m = eye::<A>(n);
    if n > 1 {
        let o = orth::<A>(n - 1, which);
        for i in 1..n {
            for j in 1..n {
                m[(i, j)] = o[(i - 1, j - 1)];
            }
        }
    }
    m
}
fn family<A: Scalar>(c: &mut Ctx, n: usize, w: usize, pat: u32, free: usize, l: Lay) {
    let t = tridiag(c, n, pat, free);
    let q = emb::<A>(n, w);
    let a = mm(&mm(&q, &t), &tr(&q));
    post(c, &a, l);
}
fn shapes<A: Scalar>(c: &mut Ctx) {
    for r in 0..5 {
        for k in 0..5 {
            let a = Array2::from_shape_fn((r, k), |(i, j)| A::lit(if i == j { i as f64 - 1.0 } else { 0.0 }));
            let e = a.sym_tridiagonal().map(|d| d.generate_q().dim());
            c.check(
                &format!("{}x{}", r, k),
                if r != k {
                    matches!(e, Err(LinalgError::NotSquare { rows, cols }) if rows == r && cols == k)
                } else if r == 0 {
                    matches!(e, Err(LinalgError::EmptyMatrix))
                } else {
                    matches!(e, Ok(d) if d == (r, r))
                },
            );
        }
    }
}

pub fn jobs(t: bool) -> Vec<Job> {
    let mut v = vec![];
    for n in 1..4 {
        for l in LAYS {
            if n == 3 && l != Lay::C && !t {
                continue;
            }
            job!(v, format!("full-{}-{:?}", n, l), |c, A| full::<A>(c, n, l)).desc("every entry of the symmetric matrix symbolic");
        }
    }
    for n in 1..3 {
        job!(v, format!("full-{}", n), |c, A| full::<A>(c, n, Lay::C)).desc("every entry of the symmetric matrix symbolic and small against one").tiny();
    }
    for w in [0, 9] {
        job!(v, format!("fam{}-3", w), |c, A| family::<A>(c, 3, w, 0, 3, Lay::C)).secs(20).desc("A = Q0*T0*Q0^T, T0 tridiagonal symbolic and small against one").tiny();
    }
    for n in [3, 4, 5] {
        for w in [0, 1, 8, 9] {
            for pat in 0..1u32 << (n - 1) {
                if n == 5 && (w == 1 || !t && pat % 3 != 0) || n > 3 && w < 2 && pat != 0 && !t {
                    continue;
                }
                job!(v, format!("fam{}-{}-p{:b}", w, n, pat), |c, A| family::<A>(c, n, w, pat, n, LAYS[(pat as usize + w + n) % LAYS.len()])).secs(if t { 200 } else { 20 }).desc("A = Q0*T0*Q0^T, T0 tridiagonal symbolic, off-diagonal entries of the pattern zero");
            }
        }
    }
    for e in [-400, 400] {
        for n in 1..3 {
            job!(v, format!("full-{}", n), |c, A| full::<A>(c, n, Lay::C)).desc("every entry a symbolic multiple of a power of two").unit(e);
        }
        job!(v, "fam9-4", |c, A| family::<A>(c, 4, 9, 0, 4, Lay::C)).secs(20).desc("A = P*T0*P^T, entries symbolic multiples of a power of two").unit(e);
    }
    for n in [5, 6, 7, 8, 17, 33] {
        for k in 0..3 {
            job!(v, format!("large-{}-{}", n, k), |c, A| family::<A>(c, n, if k == 2 { 8 } else { 9 }, if k == 0 { 0 } else { 1 << (n / 2) }, 2, Lay::C)).secs(20).desc("A = P*T0*P^T, the leading entries of T0 symbolic");
        }
    }
    job!(v, "shapes", |c, A| shapes::<A>(c)).desc("all shapes up to 4x4");
    v
}
