use super::util::*;
use crate::ctx::*;
use crate::engine::{POS, ZERO};
use crate::job;
use linfa_linalg::norm::Norm;
use ndarray::prelude::*;

/// The three norms of any array against their definitions, and their relations.
fn post<A: Scalar, D: Dimension>(c: &mut Ctx, nm: &str, a: &ArrayView<A, D>, rel: bool) {
    let v: Vec<A> = a.iter().cloned().collect();
    let (l1, l2, mx) = (a.norm_l1(), a.norm_l2(), a.norm_max());
    let z = A::lit(0.0);
    let big = v.iter().map(|x| x.approx().abs()).fold(0.0, f64::max);
    set_scale::<A>(c, big);
    let abs: Vec<A> = v.iter().map(|&x| if x < z { z - x } else { x }).collect();
    A::claim_eq(c, &format!("{}: l1", nm), l1, abs.iter().fold(z, |s, &x| s + x));
    let mut m = z;
    for &x in &abs {
        A::claim_sign(c, &format!("{}: max bounds every entry", nm), mx - x, ZERO | POS);
        if m < x {
            m = x;
        }
    }
    A::claim_eq(c, &format!("{}: max", nm), mx, m);
    set_scale::<A>(c, big * big);
    A::claim_eq(c, &format!("{}: l2 squared", nm), l2 * l2, v.iter().fold(z, |s, &x| s + x * x));
    set_scale::<A>(c, big);
    for (n, x) in [("l1", l1), ("l2", l2), ("max", mx)] {
        nonneg(c, &format!("{}: {} not negative", nm, n), x);
        if v.is_empty() {
            zero(c, &format!("{}: {} of nothing", nm, n), x);
        }
    }
    if rel && !v.is_empty() {
        nonneg(c, &format!("{}: max <= l2", nm), l2 - mx);
        nonneg(c, &format!("{}: l2 <= l1", nm), l1 - l2);
    }
    c.scale = 1.0;
}
fn same<A: Scalar, D: Dimension, E: Dimension>(c: &mut Ctx, nm: &str, a: &ArrayView<A, D>, b: &ArrayView<A, E>, k: A) {
    let big = a.iter().chain(b.iter()).map(|x| x.approx().abs()).fold(0.0, f64::max);
    set_scale::<A>(c, big);
    A::claim_eq(c, &format!("{}: l1", nm), b.norm_l1(), k * a.norm_l1());
    A::claim_eq(c, &format!("{}: l2", nm), b.norm_l2(), k * a.norm_l2());
    A::claim_eq(c, &format!("{}: max", nm), b.norm_max(), k * a.norm_max());
    c.scale = 1.0;
}
fn vector<A: Scalar>(c: &mut Ctx, n: usize) {
    let v: Array1<A> = (0..n).map(|i| A::input(c, &format!("x{}", i))).collect();
    post(c, "vector", &v.view(), n <= 3);
    // reversed, rotated
    let mut r = v.clone();
    r.invert_axis(Axis(0));
    same(c, "reversed view", &v.view(), &r.view(), A::lit(1.0));
    let p: Array1<A> = (0..n).map(|i| v[(i + 1) % n]).collect();
    same(c, "rotated", &v.view(), &p.view(), A::lit(1.0));
    // each sign change
    for i in 0..n {
        let mut s = v.clone();
        s[i] = -s[i];
        same(c, "one sign changed", &v.view(), &s.view(), A::lit(1.0));
    }
    let s: Array1<A> = v.iter().map(|&x| -x).collect();
    same(c, "all signs changed", &v.view(), &s.view(), A::lit(1.0));
    // every second element of a longer array
    let mut w = Array1::from_elem(2 * n + 1, A::lit(1e6));
    for i in 0..n {
        w[2 * i + 1] = v[i];
    }
    same(c, "strided view", &v.view(), &w.slice(s![1..;2]), A::lit(1.0));
}
/// one factor, any sign
fn scaling<A: Scalar>(c: &mut Ctx, n: usize) {
    let v: Array1<A> = (0..n).map(|i| A::input(c, &format!("x{}", i))).collect();
    let k = A::input(c, "k");
    let w: Array1<A> = v.iter().map(|&x| k * x).collect();
    let ak = if k < A::lit(0.0) { -k } else { k };
    same(c, "scaled", &v.view(), &w.view(), ak);
}
/// triangle inequality of the l1 and maximum norms
fn triangle<A: Scalar>(c: &mut Ctx, n: usize) {
    let v: Array1<A> = (0..n).map(|i| A::input(c, &format!("x{}", i))).collect();
    let w: Array1<A> = (0..n).map(|i| A::input(c, &format!("y{}", i))).collect();
    let s: Array1<A> = (0..n).map(|i| v[i] + w[i]).collect();
    nonneg(c, "l1", v.norm_l1() + w.norm_l1() - s.norm_l1());
    nonneg(c, "max", v.norm_max() + w.norm_max() - s.norm_max());
}
fn matrix<A: Scalar>(c: &mut Ctx, r: usize, k: usize, l: Lay) {
    let m: Array2<A> = mat(c, "m", r, k);
    let x = laid(&m, l, A::lit(-1e6));
    post(c, &format!("{:?}", l), &x.view(), false);
    same(c, &format!("{:?} transposed", l), &m.view(), &x.t(), A::lit(1.0));
    if l == Lay::C && r > 0 && k > 0 {
        post(c, "row", &m.row(r - 1), false);
        post(c, "column", &m.column(0), false);
        let b = m.row(0);
        let b = b.broadcast((3, k)).unwrap();
        post(c, "broadcast", &b, false);
    }
}
fn cube<A: Scalar>(c: &mut Ctx, a: usize, b: usize, d: usize) {
    let n = a * b * d;
    let v: Vec<A> = (0..n).map(|i| if i % 3 == 1 && i < 8 { A::input(c, &format!("x{}", i)) } else { A::lit((i % 5) as f64 - 2.0) }).collect();
    let m = Array3::from_shape_vec((a, b, d), v.clone()).unwrap();
    post(c, "cube", &m.view(), false);
    let mut p = m.clone();
    p.swap_axes(0, 2);
    post(c, "axes swapped", &p.view(), false);
    same(c, "axes swapped", &m.view(), &p.view(), A::lit(1.0));
    let mut p = m.clone();
    p.invert_axis(Axis(1));
    same(c, "axis inverted", &m.view(), &p.view(), A::lit(1.0));
    let dy = m.clone().into_dyn();
    same(c, "dynamic dimension", &m.view(), &dy.view(), A::lit(1.0));
    post(c, "dynamic dimension", &dy.view(), false);
    post(c, "part", &m.slice(s![..;2, .., 1..]), false);
}
/// long arrays: two entries symbolic
fn long<A: Scalar>(c: &mut Ctx, n: usize, p: usize, q: usize) {
    let mut v: Array1<A> = (0..n).map(|i| A::lit((i % 5) as f64 - 2.0)).collect();
    v[p] = A::input(c, "x");
    v[q] = A::input(c, "y");
    post(c, "long", &v.view(), false);
    let m = v.clone().into_shape_with_order((n / 2, 2)).unwrap();
    same(c, "as a matrix", &v.view(), &m.view(), A::lit(1.0));
    same(c, "as a transposed matrix", &v.view(), &m.t(), A::lit(1.0));
    same(c, "columns inverted", &v.view(), &m.slice(s![.., ..;-1]), A::lit(1.0));
}
fn zero_dim<A: Scalar>(c: &mut Ctx) {
    let x = A::input(c, "x");
    let a = Array0::from_elem((), x);
    post(c, "zero-dimensional", &a.view(), true);
    post(c, "no elements 1d", &Array1::<A>::zeros(0).view(), true);
    post(c, "no elements 2d", &Array2::<A>::zeros((0, 3)).view(), true);
    post(c, "no elements 2d", &Array2::<A>::zeros((3, 0)).view(), true);
    post(c, "no elements 3d", &Array3::<A>::zeros((2, 0, 3)).view(), true);
}

pub fn jobs(t: bool) -> Vec<Job> {
    let mut v = vec![];
    for n in 0..=if t { 6 } else { 4 } {
        job!(v, format!("vector-{}", n), |c, A| vector::<A>(c, n)).desc("all entries symbolic; permutations, signs, strides");
    }
    for n in 1..=3 {
        job!(v, format!("vector-{}", n), |c, A| vector::<A>(c, n)).desc("all entries symbolic and small against one").tiny();
    }
    for n in 1..=if t { 4 } else { 3 } {
        job!(v, format!("scaling-{}", n), |c, A| scaling::<A>(c, n)).desc("all entries and the factor symbolic");
        job!(v, format!("triangle-{}", n), |c, A| triangle::<A>(c, n)).desc("two symbolic vectors");
    }
    for (r, k) in [(1, 1), (1, 3), (2, 2), (3, 1), (0, 2), (2, 0), (2, 3), (3, 2)] {
        if r * k > 4 && !t {
            continue;
        }
        for l in LAYS {
            job!(v, format!("matrix-{}x{}-{:?}", r, k, l), |c, A| matrix::<A>(c, r, k, l)).desc("all entries symbolic, transposes, rows, broadcast");
        }
    }
    for (a, b, d) in [(2, 2, 2), (3, 2, 2), (1, 3, 2)] {
        job!(v, format!("cube-{}x{}x{}", a, b, d), |c, A| cube::<A>(c, a, b, d)).desc("three and dynamic dimensions, two or three entries symbolic");
    }
    for n in [8, 10, 16, 18, 34, 70] {
        for (p, q) in [(0, n - 1), (n - 2, n / 2), (7, 1)] {
            job!(v, format!("long-{}-{}-{}", n, p, q), |c, A| long::<A>(c, n, p, q)).desc("two entries symbolic, the rest fixed");
        }
    }
    job!(v, "small", |c, A| zero_dim::<A>(c)).desc("zero-dimensional and empty arrays");
    v
}
