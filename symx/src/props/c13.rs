use super::util::*;
use crate::ctx::*;
use crate::engine::ZERO;
use crate::job;
use linfa_linalg::reflection::Reflection;
use ndarray::prelude::*;

fn dot<A: Scalar>(a: &[A], b: &[A]) -> A {
    a.iter().zip(b).fold(A::lit(0.0), |s, (&x, &y)| s + x * y)
}
/// x - 2(n.x - b)n for every column
fn formula<A: Scalar>(n: &[A], b: A, x: &Array2<A>) -> Array2<A> {
    let mut o = x.clone();
    for j in 0..x.ncols() {
        let col: Vec<A> = (0..x.nrows()).map(|i| x[(i, j)]).collect();
        let f = (dot(n, &col) - b) * A::lit(2.0);
        for i in 0..x.nrows() {
            o[(i, j)] = col[i] - f * n[i];
        }
    }
    o
}
/// unit axis: w / |w| of a symbolic w, a rational axis, or coordinates constrained to unit length
fn axis<A: Scalar>(c: &mut Ctx, n: usize, kind: usize) -> Vec<A> {
    match kind {
        0 => {
            let w: Vec<A> = (0..n).map(|i| A::input(c, &format!("w{}", i))).collect();
            let q = dot(&w, &w);
            A::assume_sign(c, q, crate::engine::POS);
            let r = q.sqrt();
            w.iter().map(|&x| x / r).collect()
        }
        1 => {
            // stereographic: rational points of the sphere
            let w: Vec<A> = (0..n.saturating_sub(1)).map(|i| A::input(c, &format!("t{}", i))).collect();
            let q = dot(&w, &w);
            let one = A::lit(1.0);
            let d = q + one;
            let mut v: Vec<A> = w.iter().map(|&x| (x + x) / d).collect();
            v.push((q - one) / d);
            v
        }
        _ => {
            let mut v = vec![A::lit(0.0); n];
            v[(kind - 2) % n] = A::lit(if kind % 2 == 0 { 1.0 } else { -1.0 });
            v
        }
    }
}
fn all<A: Scalar>(c: &mut Ctx, n: usize, k: usize, kind: usize, l: Lay, bias: bool) {
    let ax: Vec<A> = axis(c, n, kind);
    let b = if bias { A::input(c, "b") } else { A::lit(0.0) };
    let x: Array2<A> = mat(c, "x", n, k);
    let want = formula(&ax, b, &x);
    let pad = A::lit(7.0);
    let arr = Array1::from(ax.clone());
    let mut wide = Array1::from_elem(2 * n + 1, pad);
    for i in 0..n {
        wide[2 * i + 1] = ax[i];
    }
    set_scale::<A>(c, maxabs(&x).max(b.approx().abs()));
    let rf = Reflection::new(arr.view(), b);
    let rs = Reflection::new(wide.slice(s![1..;2]), b);
    let ro = Reflection::new(arr.clone(), b);
    // columns
    let mut y = laid(&x, l, pad);
    rf.reflect_cols(&mut y);
    let y = y.to_owned();
    eq_mat(c, "columns", &y, &want);
    // rows
    let mut z = laid(&tr(&x), l, pad);
    rf.reflect_rows(&mut z);
    eq_mat(c, "rows", &tr(&z.to_owned()), &want);
    // strided axis, view of a larger array whose surroundings stay
    let mut big = Array2::from_elem((2 * n + 1, k + 2), pad);
    big.slice_mut(s![1..;2, 1..k + 1]).assign(&x);
    rs.reflect_cols(&mut big.slice_mut(s![1..;2, 1..k + 1]));
    eq_mat(c, "view", &big.slice(s![1..;2, 1..k + 1]).to_owned(), &want);
    for i in 0..big.nrows() {
        for j in 0..big.ncols() {
            if i % 2 == 0 || j == 0 || j == k + 1 {
                A::claim_same(c, "surroundings", big[(i, j)], pad);
            }
        }
    }
    let mut t = tr(&x);
    ro.reflect_rows(&mut t.view_mut());
    eq_mat(c, "rows of a view", &tr(&t), &want);
    // involution
    let mut w = y.clone();
    ro.reflect_cols(&mut w);
    eq_mat(c, "twice", &w, &x);
    // the component along any direction orthogonal to the axis stays
    let perp = |v: &[A], y: &[A]| {
        let f = dot(&ax, v);
        (0..n).map(|i| (y[i] - f * ax[i])).collect::<Vec<A>>()
    };
    let col = |m: &Array2<A>, j: usize| (0..n).map(|i| m[(i, j)]).collect::<Vec<A>>();
    for j in 0..k {
        let (a, b2) = (col(&x, j), col(&y, j));
        let (pa, pb) = (perp(&a, &a), perp(&b2, &b2));
        for i in 0..n {
            A::claim_eq(c, &format!("orthogonal part {},{}", i, j), pa[i], pb[i]);
        }
        // distances to the plane are mirrored
        A::claim_eq(c, &format!("mirrored {}", j), dot(&ax, &a) + dot(&ax, &b2), b + b);
    }
    if !bias {
        set_scale::<A>(c, maxabs(&x).powi(2));
        for i in 0..k {
            for j in 0..k {
                A::claim_eq(c, &format!("inner product {},{}", i, j), dot(&col(&y, i), &col(&y, j)), dot(&col(&x, i), &col(&x, j)));
            }
        }
    }
    c.scale = 1.0;
    for (i, r) in [rf.axis().to_owned(), rs.axis().to_owned(), ro.axis().to_owned()].iter().enumerate() {
        c.check("axis length", r.len() == n);
        for j in 0..n {
            A::claim_same(c, &format!("axis {}[{}]", i, j), r[j], ax[j]);
        }
    }
}
/// points of the plane stay where they are
fn fixed_points<A: Scalar>(c: &mut Ctx, n: usize, k: usize) {
    let ax: Vec<A> = axis(c, n, 1);
    let b = A::input(c, "b");
    let x: Array2<A> = mat(c, "x", n, k);
    let mut p = x.clone();
    for j in 0..k {
        let col: Vec<A> = (0..n).map(|i| x[(i, j)]).collect();
        let f = dot(&ax, &col) - b;
        for i in 0..n {
            p[(i, j)] = col[i] - f * ax[i];
        }
    }
    let rf = Reflection::new(Array1::from(ax), b);
    let mut y = p.clone();
    rf.reflect_cols(&mut y);
    set_scale::<A>(c, maxabs(&x).max(b.approx().abs()));
    eq_mat(c, "columns in the plane", &y, &p);
    let mut y = tr(&p);
    rf.reflect_rows(&mut y);
    eq_mat(c, "rows in the plane", &tr(&y), &p);
    c.scale = 1.0;
}
/// any axis whatever, unit or not: the formula itself
fn any_axis<A: Scalar>(c: &mut Ctx, n: usize, k: usize) {
    let ax: Vec<A> = (0..n).map(|i| A::input(c, &format!("w{}", i))).collect();
    let b = A::input(c, "b");
    let x: Array2<A> = mat(c, "x", n, k);
    let m = ax.iter().map(|x| x.approx().abs()).fold(1.0, f64::max);
    set_scale::<A>(c, (maxabs(&x) * m * m).max(b.approx().abs() * m));
    let rf = Reflection::new(Array1::from(ax.clone()), b);
    let mut y = x.clone();
    rf.reflect_cols(&mut y);
    eq_mat(c, "formula", &y, &formula(&ax, b, &x));
    let mut y = tr(&x);
    rf.reflect_rows(&mut y);
    eq_mat(c, "formula on rows", &tr(&y), &formula(&ax, b, &x));
    c.scale = 1.0;
}
fn unit<A: Scalar>(c: &mut Ctx, n: usize) {
    let ax: Vec<A> = axis(c, n, 1);
    A::claim_sign(c, "the axis of the other jobs is a unit vector", dot(&ax, &ax) - A::lit(1.0), ZERO);
}

pub fn jobs(t: bool) -> Vec<Job> {
    let mut v = vec![];
    let top = if t { 6 } else { 5 };
    for n in 1..=top {
        for k in 0..=if t { 4 } else { 3 } {
            for kind in 0..4 {
                for bias in [true, false] {
                    for (q, l) in LAYS.into_iter().enumerate() {
                        if n > 3 && q != (n + k + kind) % LAYS.len() && !t {
                            continue;
                        }
                        job!(v, format!("reflect-{}x{}-a{}{}-{:?}", n, k, kind, if bias { "b" } else { "" }, l), |c, A| all::<A>(c, n, k, kind, l, bias))
                            .desc("matrix, bias and unit axis symbolic (a0 normalised vector, a1 stereographic, a2/a3 signed coordinate axes)");
                    }
                }
            }
            if k > 0 {
                job!(v, format!("plane-{}x{}", n, k), |c, A| fixed_points::<A>(c, n, k)).desc("points of the plane");
                job!(v, format!("any-{}x{}", n, k), |c, A| any_axis::<A>(c, n, k)).desc("axis of any length");
            }
        }
        if n > 1 && n < 4 {
            job!(v, format!("reflect-{}x2", n), |c, A| all::<A>(c, n, 2, 1, Lay::C, true)).desc("matrix, bias and unit axis symbolic, small against one").tiny();
            job!(v, format!("any-{}x2", n), |c, A| any_axis::<A>(c, n, 2)).desc("small matrix, small axis").tiny();
        }
        if n == 1 {
            for m in [8, 9, 17, 33, 65] {
                job!(v, format!("any-{}x1", m), |c, A| any_axis::<A>(c, m, 1)).desc("axis of any length, long");
            }
        }
        job!(v, format!("unit-{}", n), |c, A| unit::<A>(c, n)).desc("sanity of the axis parametrisation");
    }
    v
}
