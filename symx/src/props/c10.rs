use super::c07::emb;
use super::c08::bidiag;
use super::util::*;
use crate::ctx::*;
use crate::engine::{POS, ZERO};
use crate::job;
use linfa_linalg::svd::*;
use linfa_linalg::LinalgError;
use ndarray::prelude::*;

type D<A> = (Option<Array2<A>>, Array1<A>, Option<Array2<A>>);

/// Every combination of flags returns what it was asked for, equal to the complete answer.
fn flags<A: Scalar>(c: &mut Ctx, a: &Array2<A>, d: &D<A>, l: Lay) {
    let pad = A::lit(7.0);
    set_scale::<A>(c, maxabs(a));
    for (cu, cv) in [(false, false), (true, false), (false, true), (true, true)] {
        let nm = format!("flags {} {}", cu as u8, cv as u8);
        let (u, s, v) = match if cu == cv { laid(a, l, pad).svd_into(cu, cv) } else { laid(a, l, pad).svd(cu, cv) } {
            Ok(r) => r,
            Err(_) => {
                c.check(&nm, false);
                continue;
            }
        };
        c.check(&nm, u.is_some() == cu && v.is_some() == cv && s.len() == d.1.len());
        for i in 0..s.len().min(d.1.len()) {
            A::claim_eq(c, &format!("{} s[{}]", nm, i), s[i], d.1[i]);
        }
        if !A::SYM {
            c.scale = 1.0;
        }
        if let (Some(x), Some(y)) = (&u, &d.0) {
            eq_mat(c, &format!("{} U", nm), x, y);
        }
        if let (Some(x), Some(y)) = (&v, &d.2) {
            eq_mat(c, &format!("{} Vt", nm), x, y);
        }
        set_scale::<A>(c, maxabs(a));
    }
    c.scale = 1.0;
}
fn get<A: Scalar>(c: &mut Ctx, a: &Array2<A>, l: Lay) -> Option<D<A>> {
    let (r, k) = a.dim();
    let m = r.min(k);
    let d = match laid(a, l, A::lit(7.0)).svd(true, true) {
        Ok(r) => r,
        Err(_) => {
            c.check("succeeds", false);
            return None;
        }
    };
    let ok = d.1.len() == m && d.0.as_ref().map(|u| u.dim()) == Some((r, m)) && d.2.as_ref().map(|v| v.dim()) == Some((m, k));
    c.check("shapes", ok);
    ok.then_some(d)
}
pub fn exact<A: Scalar>(c: &mut Ctx, a: &Array2<A>, l: Lay) {
    let d = match get(c, a, l) {
        Some(d) => d,
        None => return,
    };
    let (u, s, vt) = (d.0.as_ref().unwrap(), &d.1, d.2.as_ref().unwrap());
    orthonormal(c, "U", u);
    orthonormal(c, "V", &tr(vt));
    for i in 0..s.len() {
        nonneg(c, &format!("s[{}]", i), s[i]);
    }
    let us = mm(u, &diag(&s.to_vec()));
    eq_prod(c, "U*diag(s)*Vt", &us, vt, a);
    flags(c, a, &d, l);
}
/// With a coarse tolerance: orthonormal factors, s_i = u_i^T A v_i, the dropped part bounded.
fn invariant<A: Scalar>(c: &mut Ctx, a: &Array2<A>, big: f64) {
    let d = match get(c, a, Lay::C) {
        Some(d) => d,
        None => return,
    };
    let (u, s, vt) = (d.0.as_ref().unwrap(), &d.1, d.2.as_ref().unwrap());
    orthonormal(c, "U", u);
    orthonormal(c, "V", &tr(vt));
    let k = mm(&mm(&tr(u), a), &tr(vt));
    set_scale::<A>(c, maxabs(a));
    let mut off = A::lit(0.0);
    for i in 0..s.len() {
        nonneg(c, &format!("s[{}]", i), s[i]);
        A::claim_eq(c, &format!("u^T*A*v {}", i), k[(i, i)], s[i]);
        for j in 0..s.len() {
            if i != j {
                off = off + k[(i, j)] * k[(i, j)];
            }
        }
    }
    let e = if A::SYM { A::epsilon() } else { A::epsilon() * A::lit(100.0) } * A::lit(5.0);
    let b = A::lit(4.0 * s.len() as f64 * big * big) * e * e;
    nonneg(c, "dropped part", b - off);
    flags(c, a, &d, Lay::C);
}
fn full<A: Scalar>(c: &mut Ctx, r: usize, k: usize, l: Lay) {
    let a: Array2<A> = mat(c, "a", r, k);
    exact(c, &a, l);
}
fn bounded<A: Scalar>(c: &mut Ctx, x: A, b: f64) {
    A::assume_sign(c, A::lit(b) - x, ZERO | POS);
    A::assume_sign(c, A::lit(b) + x, ZERO | POS);
}
/// U0*B0*V0^T with B0 bidiagonal, the given entries zero; `fix`: diagonal entry holding the largest value
fn family<A: Scalar>(c: &mut Ctx, r: usize, n: usize, w: usize, pd: u32, po: u32, fix: Option<usize>, wide: bool, l: Lay) {
    let a = member::<A>(c, r, n, w, pd, po, fix, wide);
    exact(c, &a, l);
}
#[allow(clippy::too_many_arguments)]
pub fn member<A: Scalar>(c: &mut Ctx, r: usize, n: usize, w: usize, pd: u32, po: u32, fix: Option<usize>, wide: bool) -> Array2<A> {
    let mut b = bidiag::<A>(c, n, pd, po);
    if let Some(f) = fix {
        b[(f, f)] = A::lit(8.0);
        for i in 0..n {
            for j in 0..n {
                if (i, j) != (f, f) {
                    bounded(c, b[(i, j)], 8.0);
                }
            }
        }
    }
    let u = orth::<A>(r, w).slice(s![.., ..n]).to_owned();
    let vt = tr(&emb::<A>(n, w));
    let a = mm(&mm(&u, &b), &vt);
    if wide {
        tr(&a)
    } else {
        a
    }
}
/// As `family`, the symbolic entries chosen by `free` (diagonal bits, then off-diagonal bits), others fixed
fn some<A: Scalar>(c: &mut Ctx, n: usize, pd: u32, free: u32, wide: bool) {
    let mut b = Array2::from_elem((n, n), A::lit(0.0));
    for i in 0..n {
        if pd >> i & 1 == 0 {
            b[(i, i)] = if free >> i & 1 == 1 { A::input(c, &format!("d{}", i)) } else { A::lit([8.0, -6.0, 3.0, 8.0][i]) };
        }
        if i + 1 < n {
            b[(i, i + 1)] = if free >> (n + i) & 1 == 1 { A::input(c, &format!("e{}", i)) } else { A::lit([4.0, 6.0, -8.0][i]) };
        }
    }
    for x in b.iter() {
        bounded(c, *x, 8.0);
    }
    let mut a = Array2::from_elem((n + 1, n + 1 + wide as usize), A::lit(0.0));
    if wide {
        a.slice_mut(s![..n, ..n]).assign(&tr(&b));
    } else {
        a.slice_mut(s![..n, ..n]).assign(&b);
    }
    a[(n, n)] = A::lit(8.0);
    exact(c, &a, Lay::C);
}
/// Golub-Kahan sweeps, rational shift
fn sweep<A: Scalar>(c: &mut Ctx, k: usize, m: usize, wide: bool) {
    // tail (dm, fm, dn): tnn and tmm with fm1 = 0.5 give a rational shift when chosen so
    let (d1, f0, f1, d2) = [(3.0, 0.5, 0.5, 1.0), (4.0, 1.0, 0.25, 1.0)][k];
    let d0 = if m & 1 == 1 { A::input(c, "d0") } else { A::lit(8.0) };
    let e0 = if m & 2 == 2 { A::input(c, "e0") } else { A::lit(f0) };
    A::assume_sign(c, d0 - A::lit(4.0), ZERO | POS);
    A::assume_sign(c, A::lit(8.0) - d0, ZERO | POS);
    bounded(c, e0, 1.0);
    let z = A::lit(0.0);
    let t = Array2::from_shape_vec((3, 3), vec![d0, e0, z, z, A::lit(d1), A::lit(f1), z, z, A::lit(d2)]).unwrap();
    let n = if m & 1 == 1 { 4 } else { 3 };
    let mut a = Array2::from_elem((n, n), A::lit(0.0));
    a.slice_mut(s![n - 3.., n - 3..]).assign(&t);
    if n == 4 {
        a[(0, 0)] = A::lit(8.0);
    }
    if wide {
        let mut b = Array2::from_elem((n, n + 1), A::lit(0.0));
        b.slice_mut(s![.., ..n]).assign(&tr(&a));
        a = b;
    }
    invariant(c, &a, 8.0);
}
fn shapes<A: Scalar>(c: &mut Ctx) {
    for r in 0..5 {
        for k in 0..5 {
            let a = Array2::from_shape_fn((r, k), |(i, j)| A::lit(if i == j { i as f64 - 1.0 } else { 0.0 }));
            let m = r.min(k);
            for (cu, cv) in [(false, false), (true, false), (false, true), (true, true)] {
                for (nm, e) in [("svd", a.svd(cu, cv)), ("svd_into", a.clone().svd_into(cu, cv))] {
                    c.check(
                        &format!("{} {}x{} {} {}", nm, r, k, cu, cv),
                        match e {
                            Err(LinalgError::EmptyMatrix) => m == 0,
                            Ok((u, s, v)) => {
                                m > 0 && s.len() == m && u.map(|u| u.dim()) == cu.then_some((r, m)) && v.map(|u| u.dim()) == cv.then_some((m, k))
                            }
                            _ => false,
                        },
                    );
                }
            }
        }
    }
}

/// Bidiagonal input whose singular values reach rounding: a last diagonal entry of the wrong sign is
/// then rounding noise, which exact arithmetic does not show, so this runs on the compiled code only.
fn graded<A: Scalar>(c: &mut Ctx, k: usize) {
    let (d, o): ([f64; 5], [f64; 4]) = [
        (
            [1.2577319587628867e-13, -1.8659793814432992e-15, 0.13402061855670105, -1.1030927835051547, -1.7938144329896905e-11],
            [1.9484536082474225e-7, 1.0, -1.752577319587629e-14, 1.618556701030928e-9],
        ),
        (
            [-1.5360824742268041e-15, 1.7010309278350515e-12, 1.381443298969072e-11, -1.4948453608247422e-7, 1.1237113402061855e-11],
            [-1.2886597938144328e-7, -0.12164948453608249, -1.0824742268041236e-14, 1.484536082474227e-17],
        ),
        (
            [1.6597938144329897e-9, -1.5360824742268038e-11, 1.597938144329897e-5, -1.0, -1.268041237113402e-8],
            [2.0, -2.0, 1.309278350515464e-8, 1.134020618556701e-15],
        ),
    ][k];
    c.check("reached", true);
    if A::SYM {
        return;
    }
    let mut a = Array2::<A>::zeros((5, 5));
    for i in 0..5 {
        a[(i, i)] = A::lit(d[i]);
        if i < 4 {
            a[(i, i + 1)] = A::lit(o[i]);
        }
    }
    for m in [a.clone(), a.t().to_owned()] {
        let (u, s, vt) = m.svd(true, true).unwrap();
        let (u, vt) = (u.unwrap(), vt.unwrap());
        orthonormal(c, "U", &u);
        orthonormal(c, "Vt", &tr(&vt));
        for x in &s {
            nonneg(c, "s", *x);
        }
        eq_mat(c, "U*S*Vt", &(&u * &s).dot(&vt), &m);
    }
}
/// signed permutations of a bidiagonal matrix that decouples; k: which entry is symbolic and where the block is
pub fn big<A: Scalar>(c: &mut Ctx, r: usize, n: usize, k: usize, wide: bool) -> Array2<A> {
    let mut b = Array2::from_elem((n, n), A::lit(0.0));
    for i in 0..n {
        b[(i, i)] = A::frac(3 - i as i64 * 5 % 7, 1);
    }
    b[(n / 2, n / 2)] = A::lit(8.0);
    // a block next to the start or the end, or a zero on the diagonal that is chased away
    let at = if k % 2 == 0 { 0 } else { n - 2 };
    let x = A::input(c, "x");
    bounded(c, x, 6.0);
    if k < 2 {
        b[(at, at)] = x;
        b[(at, at + 1)] = A::lit(2.0);
        b[(at + 1, at + 1)] = A::lit(3.0);
    } else {
        b[(at, at)] = if k == 2 { A::lit(0.0) } else { A::lit(3.0) };
        b[(at, at + 1)] = x;
        b[(at + 1, at + 1)] = if k == 2 { A::lit(3.0) } else { A::lit(0.0) };
    }
    let u = orth::<A>(r, 9).slice(s![.., ..n]).to_owned();
    let a = mm(&mm(&u, &b), &tr(&emb::<A>(n, 9)));
    if wide {
        tr(&a)
    } else {
        a
    }
}
fn large<A: Scalar>(c: &mut Ctx, r: usize, n: usize, k: usize, wide: bool) {
    let a = big::<A>(c, r, n, k, wide);
    exact(c, &a, Lay::C)
}

pub fn jobs(t: bool) -> Vec<Job> {
    let mut v = vec![];
    for k in 0..3 {
        job!(v, format!("graded-{}", k), |c, A| graded::<A>(c, k)).desc("concrete graded bidiagonal inputs, compiled code only (regression of a repaired defect)");
    }
    for (r, k) in [(1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2), (3, 2), (2, 3)] {
        for l in LAYS {
            if r.min(k) > 1 && (l != Lay::C || !t) {
                continue;
            }
            job!(v, format!("full-{}x{}-{:?}", r, k, l), |c, A| full::<A>(c, r, k, l)).secs(if t { 300 } else { 60 }).desc("every entry symbolic");
        }
    }
    for (r, n) in [(2, 2), (3, 2), (3, 3), (4, 3), (4, 4)] {
        for w in [8, 9, 0] {
            for wide in [false, true] {
                for pd in 0..1u32 << n {
                    for po in 0..1u32 << (n - 1) {
                        if n > 3 && !t && (pd + 3 * po + wide as u32 + w as u32) % 5 != 0 {
                            continue;
                        }
                        if w == 0 && n > 2 || !t && (wide && r == n || n > 2 && po == 0 && pd != 2) {
                            continue;
                        }
                        // every coupled run of three has a zero that decouples it
                        let run = |i: usize| po >> i & 1 == 0 && po >> (i + 1) & 1 == 0 && pd >> i & 7 == 0;
                        if (0..(n as usize).saturating_sub(2)).any(run) {
                            continue;
                        }
                        // the largest entry: a decoupled diagonal entry where there is one
                        let alone = |i: usize| pd >> i & 1 == 0 && (i == 0 || po >> (i - 1) & 1 == 1) && (i + 1 == n || po >> i & 1 == 1);
                        let fix = (0..n).find(|&i| alone(i)).or(if n > 2 { (0..n).find(|&i| pd >> i & 1 == 0) } else { None });
                        job!(v, format!("fam{}-{}x{}{}-d{:b}-o{:b}", w, r, n, if wide { "t" } else { "" }, pd, po), |c, A| family::<A>(c, r, n, w, pd, po, fix, wide, LAYS[(pd + po) as usize % 6]))
                            .secs(if t { 100 } else { 8 }).claim_ms(if t { 8000 } else { 3000 })
                            .desc("A = U0*B0*V0^T, B0 bidiagonal symbolic, entries of the patterns zero, decoupling into blocks of order two");
                    }
                }
            }
        }
    }
    for n in [3, 4] {
        for pd in 1..1u32 << n {
            let run = |i: usize| pd >> i & 7 == 0;
            if (0..n - 2).any(run) {
                continue;
            }
            for free in 0..2 * n - 1 {
                for wide in [false, true] {
                    if pd >> free & 1 == 1 || n == 4 && !t {
                        continue;
                    }
                    job!(v, format!("some-{}-d{:b}-f{}{}", n, pd, free, if wide { "t" } else { "" }), |c, A| some::<A>(c, n, pd, 1 << free, wide))
                        .secs(if t { 100 } else { 8 })
                        .claim_ms(if t { 8000 } else { 3000 })
                        .desc("8 (+) bidiagonal matrix with zeros on the diagonal, one entry symbolic");
                }
            }
        }
    }
    for k in 0..2 {
        for m in [1, 2, 3] {
            for wide in [false, true] {
                for e in [1.0 / 64.0, 1.0 / 1024.0] {
                    if !t && e < 0.01 {
                        continue;
                    }
                    job!(v, format!("sweep-{}-{}{}-{}", k, m, if wide { "t" } else { "" }, e), |c, A| sweep::<A>(c, k, m, wide))
                        .eps(e)
                        .secs(if t { 300 } else { 40 })
                        .desc("bidiagonal matrix, leading entries symbolic, implicit QR sweeps, visible deflation tolerance");
                }
            }
        }
    }
    for e in [-600, 600] {
        for (r, k) in [(1, 1), (1, 2), (2, 1), (3, 1), (1, 3), (2, 2)] {
            job!(v, format!("full-{}x{}", r, k), |c, A| full::<A>(c, r, k, Lay::C)).secs(20).desc("every entry a symbolic multiple of a power of two").unit(e);
        }
        for (pd, po) in [(0u32, 2u32), (2, 0), (0, 3)] {
            job!(v, format!("fam-3x3-d{:b}-o{:b}", pd, po), |c, A| family::<A>(c, 3, 3, 9, pd, po, None, false, Lay::C)).secs(10).claim_ms(3000).desc("A = P*B0*Q decoupling, entries symbolic multiples of a power of two").unit(e);
        }
    }
    for n in [5, 6, 7, 8, 12, 17, 33] {
        for k in 0..4 {
            for extra in [0, 1] {
                for wide in [false, true] {
                    if wide && extra == 0 {
                        continue;
                    }
                    job!(v, format!("large-{}x{}{}-{}", n + extra, n, if wide { "t" } else { "" }, k), |c, A| large::<A>(c, n + extra, n, k, wide)).secs(20).claim_ms(3000).desc("decoupled bidiagonal matrix with one or two blocks of order two, one entry symbolic");
                }
            }
        }
    }
    job!(v, "shapes", |c, A| shapes::<A>(c)).desc("all shapes up to 4x4, all flags");
    v
}
