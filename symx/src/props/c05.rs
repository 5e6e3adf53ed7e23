use super::util::*;
use crate::ctx::*;
use crate::engine::{NEG, POS};
use crate::job;
use linfa_linalg::qr::*;
use linfa_linalg::LinalgError;
use ndarray::prelude::*;

pub fn post<A: Scalar>(c: &mut Ctx, a: &Array2<A>, q: &Array2<A>, rr: &Array2<A>) {
    let (r, k) = a.dim();
    c.check("shape Q", q.dim() == (r, k));
    c.check("shape R", rr.dim() == (k, k));
    eq_prod(c, "Q*R", q, rr, a);
    orthonormal(c, "Q", q);
    for i in 0..k {
        nonneg(c, &format!("R[{},{}]", i, i), rr[(i, i)]);
        for j in 0..i {
            zero(c, &format!("R[{},{}]", i, j), rr[(i, j)]);
        }
    }
}
fn full<A: Scalar>(c: &mut Ctx, r: usize, k: usize, l: Lay) {
    let a: Array2<A> = mat(c, "a", r, k);
    let x = laid(&a, l, A::lit(7.0));
    let d = x.qr().unwrap();
    let q1 = d.generate_q();
    let r1 = d.clone().into_r();
    let (q, rr) = d.into_decomp();
    post(c, &a, &q, &rr);
    agree_mat(c, "generate_q", &q1, &q);
    agree_mat(c, "into_r", &r1, &rr);
    same_mat(c, "input untouched", &x.to_owned(), &a);
    let (q2, r2) = laid(&a, l, A::lit(7.0)).qr_into().unwrap().into_decomp();
    agree_mat(c, "consuming Q", &q2, &q);
    agree_mat(c, "consuming R", &r2.to_owned(), &rr);
}
/// A = Q0 * R0, Q0 a fixed rational orthogonal matrix
fn family<A: Scalar>(c: &mut Ctx, q0: Array2<A>, r0: Array2<A>, pat: u32) {
    let k = r0.ncols();
    for i in 0..k {
        if pat.checked_shr(i as u32).unwrap_or(0) & 1 == 0 {
            A::assume_sign(c, r0[(i, i)], NEG | POS);
        }
    }
    let q0 = q0.slice(s![.., ..k]).to_owned();
    let a = mm(&q0, &r0);
    let (q, rr) = a.qr().unwrap().into_decomp();
    post(c, &a, &q, &rr);
}
/// A = Q0*R0, positive diagonal: the factors come back
fn unique<A: Scalar>(c: &mut Ctx, q0: Array2<A>, r0: Array2<A>) {
    let k = r0.ncols();
    for i in 0..k {
        A::assume_sign(c, r0[(i, i)], POS);
    }
    let q0 = q0.slice(s![.., ..k]).to_owned();
    let a = mm(&q0, &r0);
    let (q, rr) = a.qr().unwrap().into_decomp();
    if A::SYM {
        eq_mat(c, "R", &rr, &r0);
        eq_mat(c, "Q", &q, &q0);
    } else {
        // forward errors depend on the conditioning: judge the concrete run by the residuals
        post(c, &a, &q, &rr);
    }
}
fn shapes<A: Scalar>(c: &mut Ctx) {
    for r in 0..5 {
        for k in 0..6 {
            let a: Array2<A> = fixed(r, k, 2);
            let (e, f) = (a.qr().map(|d| d.into_decomp()), a.clone().qr_into().map(|d| d.into_decomp()));
            let n = format!("{}x{}", r, k);
            if r < k {
                c.check(&n, matches!(e, Err(LinalgError::NotThin { rows, cols }) if rows == r && cols == k));
                c.check(&n, matches!(f, Err(LinalgError::NotThin { rows, cols }) if rows == r && cols == k));
            } else {
                c.check(&n, matches!(e, Ok((q, x)) if q.dim() == (r, k) && x.dim() == (k, k)));
                c.check(&n, matches!(f, Ok((q, x)) if q.dim() == (r, k) && x.dim() == (k, k)));
            }
        }
    }
}

pub fn jobs(t: bool) -> Vec<Job> {
    let mut v = vec![];
    for (r, k) in [(1, 1), (2, 1), (2, 2), (3, 1), (4, 1)] {
        for l in LAYS {
            job!(v, format!("full-{}x{}-{:?}", r, k, l), |c, A| full::<A>(c, r, k, l)).desc("every entry symbolic");
        }
    }
    for (r, k) in [(1, 1), (2, 1), (2, 2), (3, 1)] {
        job!(v, format!("full-{}x{}", r, k), |c, A| full::<A>(c, r, k, Lay::C)).desc("every entry symbolic and small against one").tiny();
    }
    for (r, k) in [(3, 2), (3, 3)] {
        job!(v, format!("fam-{}x{}", r, k), |c, A| {
            let r0 = upper_pat(c, "r", k, 0);
            family::<A>(c, orth(r, 0), r0, 0)
        })
        .desc("A = Q0*R0, R0 upper triangular symbolic and small against one")
        .tiny();
    }
    job!(v, "full-3x2", |c, A| full::<A>(c, 3, 2, Lay::C)).terms(400000).secs(120).desc("every entry symbolic");
    for (r, k) in [(3, 2), (3, 3), (4, 2), (5, 2)] {
        for w in 0..2 {
            for pat in 0..1u32 << k {
                job!(v, format!("fam{}-{}x{}-p{:b}", w, r, k, pat), |c, A| {
                    let r0 = upper_pat(c, "r", k, pat);
                    family::<A>(c, orth(r, w), r0, pat)
                })
                .desc("A = Q0*R0, R0 upper triangular symbolic with the diagonal entries of the pattern zero");
            }
        }
    }
    for (r, k) in [(4, 4), (5, 4)] {
        for pat in 0..1u32 << k {
            // the others leave three columns to clear at once
            if !t && ![0, 0b100, 0b110, 0b1010, 0b1110, 0b1111].contains(&pat) {
                continue;
            }
            job!(v, format!("perm-{}x{}-p{:b}", r, k, pat), |c, A| {
                let r0 = upper_pat(c, "r", k, pat);
                family::<A>(c, orth(r, 9), r0, pat)
            })
            .secs(30)
            .desc("A = P*R0, P a signed permutation, R0 symbolic, diagonal entries of the pattern zero");
        }
    }
    for (r, k) in [(4, 3), (4, 4), (5, 3)] {
        for pat in 0..1u32 << k {
            if k == 4 && pat & 1 == 1 && pat != 15 {
                continue;
            }
            job!(v, format!("band-{}x{}-p{:b}", r, k, pat), |c, A| {
                let r0 = upper_some(c, "r", k, pat, |i, j| j <= i + 1 && i + 2 >= k.min(3));
                family::<A>(c, orth(r, 0), r0, pat)
            })
            .secs(30)
            .desc("A = Q0*R0, the last bidiagonal entries of R0 symbolic, the others fixed, diagonal entries of the pattern zero");
        }
    }
    for (r, k) in [(3, 3), (4, 3), (4, 4), (5, 4), (5, 5)] {
        for w in 0..2 {
            job!(v, format!("unique{}-{}x{}", w, r, k), |c, A| {
                let r0 = upper_pat(c, "r", k, 0);
                unique::<A>(c, orth(r, w), r0)
            })
            .desc("A = Q0*R0 with positive diagonal: Q0 and R0 are returned");
        }
    }
    if t {
        for (r, k) in [(4, 3), (4, 4), (5, 3)] {
            for w in 0..2 {
                for pat in 0..1u32 << k {
                    job!(v, format!("fam{}-{}x{}-p{:b}", w, r, k, pat), |c, A| {
                        let r0 = upper_pat(c, "r", k, pat);
                        family::<A>(c, orth(r, w), r0, pat)
                    })
                    .secs(400)
                    .desc("A = Q0*R0, R0 upper triangular symbolic with the diagonal entries of the pattern zero");
                }
            }
        }
    }
    for e in [-400, 400] {
        for (r, k) in [(1, 1), (2, 1), (2, 2), (3, 1)] {
            job!(v, format!("full-{}x{}", r, k), |c, A| full::<A>(c, r, k, Lay::C)).desc("every entry a symbolic multiple of a power of two").unit(e);
        }
        job!(v, "fam-3x3", |c, A| {
            let r0 = upper_pat(c, "r", 3, 0);
            family::<A>(c, orth(3, 9), r0, 0)
        })
        .desc("A = P*R0, entries symbolic multiples of a power of two")
        .unit(e);
    }
    for n in [5, 6, 7, 8, 10, 16, 17, 33] {
        for (extra, i) in [(0, 0), (0, n - 1), (2, n / 2), (1, n - 2)] {
            job!(v, format!("large-{}x{}-{}", n + extra, n, i), |c, A| {
                let r0 = upper_some(c, "r", n, 0, |p, q| p == i && (q == i || q == n - 1));
                family::<A>(c, orth(n + extra, 9), r0, 0)
            })
            .secs(20)
            .desc("A = P*R0, P a signed permutation, one or two entries of R0 symbolic");
        }
    }
    job!(v, "shapes", |c, A| shapes::<A>(c)).desc("all shapes up to 4x5");
    v
}
