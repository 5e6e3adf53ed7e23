use super::util::*;
use crate::ctx::*;
use crate::engine::{POS, ZERO};
use crate::job;
use linfa_linalg::eigh::EigSort;
use linfa_linalg::svd::SvdSort;
use linfa_linalg::Order;
use ndarray::prelude::*;

type D<A> = (Option<Array2<A>>, Array1<A>, Option<Array2<A>>);

fn ord(largest: bool) -> Order {
    if largest {
        Order::Largest
    } else {
        Order::Smallest
    }
}
/// r x n vectors; row 0 of column j holds the tag j, the rest is symbolic
fn tagged<A: Scalar>(c: &mut Ctx, nm: &str, r: usize, n: usize) -> Array2<A> {
    let mut m = Array2::from_elem((r, n), A::lit(0.0));
    for j in 0..n {
        m[(0, j)] = A::lit(j as f64 + 10.0);
        for i in 1..r {
            m[(i, j)] = A::input(c, &format!("{}{}_{}", nm, i, j));
        }
    }
    m
}
/// the permutation the tags tell, if it is one
fn perm<A: Scalar>(c: &mut Ctx, nm: &str, out: &Array2<A>, n: usize) -> Option<Vec<usize>> {
    let mut p = vec![];
    for o in 0..n {
        match (0..n).find(|&j| out[(0, o)] == A::lit(j as f64 + 10.0)) {
            Some(j) => p.push(j),
            None => {
                c.check(&format!("{}: vector {} is one of the input", nm, o), false);
                return None;
            }
        }
    }
    let mut q = p.clone();
    q.sort();
    q.dedup();
    c.check(&format!("{}: no vector lost or duplicated", nm), q.len() == n);
    (q.len() == n).then_some(p)
}
fn monotone<A: Scalar>(c: &mut Ctx, nm: &str, s: &Array1<A>, largest: bool) {
    for i in 1..s.len() {
        let (a, b) = (s[i - 1], s[i]);
        if !a.is_finite() || !b.is_finite() {
            c.check(&format!("{}: order at {}", nm, i), if largest { a >= b } else { a <= b });
        } else {
            A::claim_sign(c, &format!("{}: order at {}", nm, i), if largest { a - b } else { b - a }, ZERO | POS);
        }
    }
}
fn same_vec<A: Scalar>(c: &mut Ctx, nm: &str, a: &Array1<A>, b: &Array1<A>) {
    c.check(&format!("{}: length", nm), a.len() == b.len());
    for i in 0..a.len().min(b.len()) {
        A::claim_same(c, &format!("{}[{}]", nm, i), a[i], b[i]);
    }
}
fn paired<A: Scalar>(c: &mut Ctx, nm: &str, vals: &Array1<A>, vecs: &Array2<A>, ov: &Array1<A>, om: &Array2<A>, p: &[usize]) {
    for (o, &j) in p.iter().enumerate() {
        A::claim_same(c, &format!("{}: value {}", nm, o), ov[o], vals[j]);
        if !A::SYM {
            c.check(&format!("{}: sign of value {}", nm, o), ov[o].is_sign_negative() == vals[j].is_sign_negative());
        }
        for i in 0..vecs.nrows() {
            A::claim_same(c, &format!("{}: vector {}[{}]", nm, o, i), om[(i, o)], vecs[(i, j)]);
        }
    }
}
fn eig<A: Scalar>(c: &mut Ctx, vals: Array1<A>, r: usize, largest: bool, l: Lay) {
    let n = vals.len();
    let vecs: Array2<A> = tagged(c, "v", r, n);
    let x = (vals.clone(), laid(&vecs, l, A::lit(3.0)));
    let (ov, om) = x.clone().sort_eig(ord(largest));
    c.check("shapes", ov.len() == n && om.dim() == (r, n));
    monotone(c, "pair", &ov, largest);
    if let Some(p) = perm(c, "pair", &om, n) {
        paired(c, "pair", &vals, &vecs, &ov, &om, &p);
    }
    // the shorthand forms
    let (sv, sm) = if largest { x.sort_eig_desc() } else { x.sort_eig_asc() };
    same_vec(c, "shorthand", &sv, &ov);
    same_mat(c, "shorthand vectors", &sm, &om);
    // values alone
    let w = vals.clone().sort_eig(ord(largest));
    same_vec(c, "values alone", &w, &ov);
    let w = if largest { vals.clone().sort_eig_desc() } else { vals.clone().sort_eig_asc() };
    same_vec(c, "values alone, shorthand", &w, &ov);
    // sorting again changes nothing
    let (v2, m2) = (ov.clone(), om.clone()).sort_eig(ord(largest));
    same_vec(c, "again", &v2, &ov);
    same_mat(c, "again vectors", &m2, &om);
}
fn svd<A: Scalar>(c: &mut Ctx, s: Array1<A>, r: usize, k: usize, largest: bool, l: Lay) {
    let n = s.len();
    let u: Array2<A> = tagged(c, "u", r, n);
    let v: Array2<A> = tagged(c, "v", k, n);
    let vt = tr(&v);
    let mut full: Option<D<A>> = None;
    for (hu, hv) in [(true, true), (true, false), (false, true), (false, false)] {
        let nm = format!("{}{}", if hu { "U" } else { "-" }, if hv { "V" } else { "-" });
        let x: D<A> = (hu.then(|| laid(&u, l, A::lit(3.0))), s.clone(), hv.then(|| laid(&vt, l, A::lit(3.0))));
        let (ou, os, ov) = x.clone().sort_svd(ord(largest));
        let sh = if largest { x.sort_svd_desc() } else { x.sort_svd_asc() };
        let dims = ou.as_ref().map(|m| m.dim()) == hu.then_some((r, n)) && ov.as_ref().map(|m| m.dim()) == hv.then_some((n, k));
        c.check(&format!("{}: shapes", nm), dims && os.len() == n);
        if !dims {
            continue;
        }
        monotone(c, &nm, &os, largest);
        let ovt = ov.as_ref().map(tr);
        let pu = ou.as_ref().map(|m| perm(c, &nm, m, n));
        let pv = ovt.as_ref().map(|m| perm(c, &nm, m, n));
        if let (Some(Some(p)), Some(m)) = (&pu, &ou) {
            paired(c, &format!("{}: U", nm), &s, &u, &os, m, p);
        }
        if let (Some(Some(p)), Some(m)) = (&pv, &ovt) {
            paired(c, &format!("{}: Vt", nm), &s, &v, &os, m, p);
        }
        if let (Some(a), Some(b)) = (&pu, &pv) {
            c.check(&format!("{}: one permutation", nm), a == b);
        }
        same_vec(c, &format!("{}: shorthand", nm), &sh.1, &os);
        if let (Some(a), Some(b)) = (&sh.0, &ou) {
            same_mat(c, &format!("{}: shorthand U", nm), a, b);
        }
        if let (Some(a), Some(b)) = (&sh.2, &ov) {
            same_mat(c, &format!("{}: shorthand Vt", nm), a, b);
        }
        if let Some(f) = &full {
            same_vec(c, &format!("{}: as with both factors", nm), &os, &f.1);
        } else {
            let (u2, s2, v2) = (ou.clone(), os.clone(), ov.clone()).sort_svd(ord(largest));
            same_vec(c, "again", &s2, &os);
            same_mat(c, "again U", u2.as_ref().unwrap(), ou.as_ref().unwrap());
            same_mat(c, "again Vt", v2.as_ref().unwrap(), ov.as_ref().unwrap());
            full = Some((ou, os, ov));
        }
    }
}
fn values<A: Scalar>(c: &mut Ctx, n: usize) -> Array1<A> {
    (0..n).map(|i| A::input(c, &format!("s{}", i))).collect()
}
/// digit 0: symbolic, 1: +inf, 2: -inf, 3: NaN
fn special<A: Scalar>(c: &mut Ctx, n: usize, mut pat: usize) -> Array1<A> {
    (0..n)
        .map(|i| {
            let d = pat % 4;
            pat /= 4;
            match d {
                0 => A::input(c, &format!("s{}", i)),
                1 => A::infinity(),
                2 => A::neg_infinity(),
                _ => A::nan(),
            }
        })
        .collect()
}
fn nan<A: Scalar>(c: &mut Ctx, n: usize, pat: usize, largest: bool) {
    let s: Array1<A> = special(c, n, pat);
    let m: Array2<A> = fixed(2, n, 5);
    let o = || ord(largest);
    c.check("values", guarded(|| s.clone().sort_eig(o())).is_err());
    c.check("values and vectors", guarded(|| (s.clone(), m.clone()).sort_eig(o())).is_err());
    for k in 0..4 {
        let x: D<A> = ((k & 1 == 1).then(|| m.clone()), s.clone(), (k & 2 == 2).then(|| tr(&m)));
        c.check("svd", guarded(|| x.sort_svd(o())).is_err());
    }
}
/// many values, two of them symbolic, with ties and both zeros (lengths where the sort changes algorithm)
fn long<A: Scalar>(c: &mut Ctx, n: usize, largest: bool, sv: bool, two: bool) {
    let mut s: Array1<A> = (0..n).map(|i| A::lit(((i * 7) % 11) as f64 - 3.0)).collect();
    s[n / 2] = A::input(c, "x");
    if two {
        s[1] = A::input(c, "y");
    }
    s[2] = A::lit(-0.0);
    s[n - 1] = A::lit(0.0);
    if sv {
        svd(c, s, 1, 2, largest, Lay::C)
    } else {
        eig(c, s, 2, largest, Lay::C)
    }
}

pub fn jobs(t: bool) -> Vec<Job> {
    let mut v = vec![];
    for lg in [false, true] {
        let o = if lg { "desc" } else { "asc" };
        for n in 0..=if t { 6 } else { 5 } {
            for (q, l) in LAYS.into_iter().enumerate() {
                if (n >= 4 && q > 0 && !t) || (n == 6 && q > 0) {
                    continue;
                }
                let r = 1 + (n + q) % 3;
                let k = 1 + (n + q + 1) % 3;
                job!(v, format!("eig-{}-{}-{:?}", o, n, l), |c, A| {
                    let s = values::<A>(c, n);
                    eig::<A>(c, s, r.max(2), lg, l)
                })
                .paths(6000)
                .desc("all values and vectors symbolic, every order and tie pattern");
                if n < 6 && (n < 5 || t) {
                    job!(v, format!("svd-{}-{}-{:?}", o, n, l), |c, A| {
                        let s = values::<A>(c, n);
                        svd::<A>(c, s, r, k, lg, l)
                    })
                    .paths(6000)
                    .desc("all values and vectors symbolic, every presence pattern");
                }
            }
        }
        for n in 1..=if t { 4 } else { 3 } {
            for pat in 1..4usize.pow(n as u32) {
                let d: Vec<usize> = (0..n).map(|i| pat / 4usize.pow(i as u32) % 4).collect();
                let name: String = d.iter().map(|&x| ["s", "p", "m", "n"][x]).collect();
                if d.contains(&3) {
                    if n > 1 {
                        job!(v, format!("nan-{}-{}", o, name), |c, A| nan::<A>(c, n, pat, lg)).desc("s symbolic, p +inf, m -inf, n NaN: every form panics");
                    }
                } else {
                    job!(v, format!("inf-{}-{}", o, name), |c, A| {
                        let s = special::<A>(c, n, pat);
                        eig::<A>(c, s.clone(), 2, lg, Lay::C);
                        svd::<A>(c, s, 2, 1, lg, Lay::F)
                    })
                    .desc("s symbolic, p +inf, m -inf");
                }
            }
        }
        for n in if t { vec![8, 15, 21, 25, 33, 60] } else { vec![8, 21, 33] } {
            job!(v, format!("long-eig-{}-{}", o, n), |c, A| long::<A>(c, n, lg, false, n < 25 || t)).desc("fixed values with ties, one or two symbolic");
            job!(v, format!("long-svd-{}-{}", o, n), |c, A| long::<A>(c, n, lg, true, false)).desc("fixed values with ties, one symbolic");
        }
    }
    v
}
