use super::c07::emb;
use super::util::*;
use crate::ctx::*;
use crate::job;
use linfa_linalg::bidiagonal::*;
use linfa_linalg::LinalgError;
use ndarray::prelude::*;

pub fn post<A: Scalar>(c: &mut Ctx, a: &Array2<A>, l: Lay) {
    let (r, k) = a.dim();
    let m = r.min(k);
    let d = laid(a, l, A::lit(7.0)).bidiagonal().unwrap();
    let up = d.is_upper_diag();
    c.check("flag", up == (r >= k));
    let (u, vt) = (d.generate_u(), d.generate_vt());
    let (dg, of) = d.clone().into_diagonals();
    let b = d.into_b();
    let ok = u.dim() == (r, m) && vt.dim() == (m, k) && b.dim() == (m, m) && dg.len() == m && of.len() + 1 == m;
    c.check("shapes", ok);
    if !ok {
        return;
    }
    orthonormal(c, "U", &u);
    orthonormal(c, "V", &tr(&vt));
    for i in 0..m {
        nonneg(c, &format!("diagonal {}", i), dg[i]);
        A::claim_same(c, &format!("diagonal {} of B", i), b[(i, i)], dg[i]);
        if i + 1 < m {
            nonneg(c, &format!("off-diagonal {}", i), of[i]);
            let (x, y) = if r >= k { (b[(i, i + 1)], b[(i + 1, i)]) } else { (b[(i + 1, i)], b[(i, i + 1)]) };
            A::claim_same(c, &format!("off-diagonal {} of B", i), x, of[i]);
            A::claim_same(c, &format!("other side {} of B", i), y, A::lit(0.0));
        }
        for j in 0..m {
            if i > j + 1 || j > i + 1 {
                A::claim_same(c, &format!("B[{},{}]", i, j), b[(i, j)], A::lit(0.0));
            }
        }
    }
    let ub = mm(&u, &b);
    eq_prod(c, "U*B*Vt", &ub, &vt, a);
}
fn full<A: Scalar>(c: &mut Ctx, r: usize, k: usize, l: Lay) {
    let a: Array2<A> = mat(c, "a", r, k);
    post(c, &a, l);
}
/// upper bidiagonal with symbolic entries; zero where `pd` (diagonal) and `po` (off) say so
pub fn bidiag<A: Scalar>(c: &mut Ctx, n: usize, pd: u32, po: u32) -> Array2<A> {
    let mut t = Array2::from_elem((n, n), A::lit(0.0));
    for i in 0..n {
        if pd >> i & 1 == 0 {
            t[(i, i)] = A::input(c, &format!("d{}", i));
        }
        if i + 1 < n && po >> i & 1 == 0 {
            t[(i, i + 1)] = A::input(c, &format!("e{}", i));
        }
    }
    t
}
fn family<A: Scalar>(c: &mut Ctx, r: usize, n: usize, w: usize, pd: u32, po: u32, wide: bool, l: Lay) {
    let a = member::<A>(c, r, n, w, pd, po, wide);
    post(c, &a, l);
}
pub fn member<A: Scalar>(c: &mut Ctx, r: usize, n: usize, w: usize, pd: u32, po: u32, wide: bool) -> Array2<A> {
    let b = bidiag(c, n, pd, po);
    let u = orth::<A>(r, w).slice(s![.., ..n]).to_owned();
    let vt = tr(&emb::<A>(n, w));
    let a = mm(&mm(&u, &b), &vt);
    if wide {
        tr(&a)
    } else {
        a
    }
}
fn shapes<A: Scalar>(c: &mut Ctx) {
    for r in 0..5 {
        for k in 0..5 {
            let a = Array2::from_shape_fn((r, k), |(i, j)| A::lit(if i == j { i as f64 - 1.0 } else { 0.0 }));
            let e = a.bidiagonal().map(|d| (d.generate_u().dim(), d.generate_vt().dim(), d.into_b().dim()));
            let m = r.min(k);
            c.check(
                &format!("{}x{}", r, k),
                if m == 0 { matches!(e, Err(LinalgError::EmptyMatrix)) } else { matches!(e, Ok(d) if d == ((r, m), (m, k), (m, m))) },
            );
        }
    }
}
/// signed permutations of a fixed upper bidiagonal matrix with one symbolic row
pub fn big<A: Scalar>(c: &mut Ctx, r: usize, n: usize, i: usize, wide: bool) -> Array2<A> {
    let mut b = Array2::from_elem((n, n), A::lit(0.0));
    for k in 0..n {
        b[(k, k)] = if k == i && i + 1 == n { A::input(c, "d") } else { A::frac(k as i64 % 4 + 1, 2) };
        if k + 1 < n {
            b[(k, k + 1)] = if k == i { A::input(c, "e") } else { A::frac(if k % 3 == 1 { -1 } else { k as i64 % 5 + 1 }, 1) };
            // a zero leaves the rest in another basis: the roots of its norms nest
            A::assume_sign(c, b[(k, k + 1)], crate::engine::NEG | crate::engine::POS);
        }
    }
    let u = orth::<A>(r, 9).slice(s![.., ..n]).to_owned();
    let a = mm(&mm(&u, &b), &tr(&emb::<A>(n, 9)));
    if wide {
        tr(&a)
    } else {
        a
    }
}
fn large<A: Scalar>(c: &mut Ctx, r: usize, n: usize, i: usize, wide: bool) {
    let a = big::<A>(c, r, n, i, wide);
    post(c, &a, Lay::C);
}

pub fn jobs(t: bool) -> Vec<Job> {
    let mut v = vec![];
    for (r, k) in [(1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2)] {
        for l in LAYS {
            job!(v, format!("full-{}x{}-{:?}", r, k, l), |c, A| full::<A>(c, r, k, l)).desc("every entry symbolic");
        }
    }
    for (r, k) in [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1)] {
        job!(v, format!("full-{}x{}", r, k), |c, A| full::<A>(c, r, k, Lay::C)).desc("every entry symbolic and small against one").tiny();
    }
    for (r, k) in [(3, 2), (2, 3)] {
        job!(v, format!("full-{}x{}", r, k), |c, A| full::<A>(c, r, k, Lay::C)).terms(400000).secs(120).desc("every entry symbolic");
    }
    for (r, n) in [(2, 2), (3, 2), (3, 3), (4, 3), (4, 4)] {
        for w in [0, 1, 9] {
            for wide in [false, true] {
                if r == n && wide {
                    continue;
                }
                for pd in 0..1u32 << n {
                    for po in 0..1u32 << (n - 1) {
                        // rotated families with zero entries of order 3 and more: the roots nest too deeply
                        let heavy = w != 9 && n > 2 && (pd != 0 || (w, r, po) != (1, 3, 0));
                        if !t && (heavy || pd.count_ones() + po.count_ones() > 2 && n > 3) {
                            continue;
                        }
                        if t && w != 9 && n > 2 && (n > 3 || pd != 0) {
                            continue;
                        }
                        job!(v, format!("fam{}-{}x{}{}-d{:b}-o{:b}", w, r, n, if wide { "t" } else { "" }, pd, po), |c, A| family::<A>(c, r, n, w, pd, po, wide, LAYS[(pd as usize + po as usize + r) % LAYS.len()]))
                            .secs(if t { 120 } else { 15 })
                            .desc("A = U0*B0*V0^T, B0 bidiagonal symbolic, entries of the patterns zero");
                    }
                }
            }
        }
    }
    for e in [-400, 400] {
        for (r, k) in [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1)] {
            job!(v, format!("full-{}x{}", r, k), |c, A| full::<A>(c, r, k, Lay::C)).desc("every entry a symbolic multiple of a power of two").unit(e);
        }
        job!(v, "fam9-4x3", |c, A| family::<A>(c, 4, 3, 9, 0, 0, false, Lay::C)).secs(20).desc("A = P*B0*Q, entries symbolic multiples of a power of two").unit(e);
    }
    for n in [5, 6, 8, 12, 17, 33] {
        for extra in [0, 2] {
            for wide in [false, true] {
                for i in [0, n / 2, n - 1] {
                    if wide && extra == 0 {
                        continue;
                    }
                    job!(v, format!("large-{}x{}{}-{}", n + extra, n, if wide { "t" } else { "" }, i), |c, A| large::<A>(c, n + extra, n, i, wide)).secs(20).desc("A = P*B0*Q, one row of B0 symbolic");
                }
            }
        }
    }
    job!(v, "shapes", |c, A| shapes::<A>(c)).desc("all shapes up to 4x4");
    v
}
