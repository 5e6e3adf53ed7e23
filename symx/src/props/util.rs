use crate::ctx::*;
use crate::engine::*;
use ndarray::prelude::*;

/// r x c matrix of fresh symbolic entries
pub fn mat<A: Scalar>(c: &mut Ctx, n: &str, r: usize, k: usize) -> Array2<A> {
    let mut m = Array2::from_elem((r, k), A::lit(0.0));
    for i in 0..r {
        for j in 0..k {
            m[(i, j)] = A::input(c, &format!("{}{}{}", n, i, j));
        }
    }
    m
}
/// symmetric matrix of fresh entries
pub fn symm<A: Scalar>(c: &mut Ctx, n: &str, r: usize) -> Array2<A> {
    let mut m = Array2::from_elem((r, r), A::lit(0.0));
    for i in 0..r {
        for j in 0..=i {
            let x = A::input(c, &format!("{}{}{}", n, i, j));
            m[(i, j)] = x;
            m[(j, i)] = x;
        }
    }
    m
}
/// plain triple-loop product (oracle side)
pub fn mm<A: Scalar>(a: &Array2<A>, b: &Array2<A>) -> Array2<A> {
    assert_eq!(a.ncols(), b.nrows());
    let mut r = Array2::from_elem((a.nrows(), b.ncols()), A::lit(0.0));
    for i in 0..a.nrows() {
        for j in 0..b.ncols() {
            let mut s = A::lit(0.0);
            for k in 0..a.ncols() {
                s = s + a[(i, k)] * b[(k, j)];
            }
            r[(i, j)] = s;
        }
    }
    r
}
pub fn tr<A: Scalar>(a: &Array2<A>) -> Array2<A> {
    let mut r = Array2::from_elem((a.ncols(), a.nrows()), A::lit(0.0));
    for i in 0..a.nrows() {
        for j in 0..a.ncols() {
            r[(j, i)] = a[(i, j)];
        }
    }
    r
}
pub fn eye<A: Scalar>(n: usize) -> Array2<A> {
    let mut r = Array2::from_elem((n, n), A::lit(0.0));
    for i in 0..n {
        r[(i, i)] = A::lit(1.0);
    }
    r
}
pub fn diag<A: Scalar>(d: &[A]) -> Array2<A> {
    let mut r = Array2::from_elem((d.len(), d.len()), A::lit(0.0));
    for i in 0..d.len() {
        r[(i, i)] = d[i];
    }
    r
}
pub fn maxabs<A: Scalar>(a: &Array2<A>) -> f64 {
    a.iter().map(|x| x.approx().abs()).fold(0.0, f64::max)
}
pub fn eq_mat<A: Scalar>(c: &mut Ctx, n: &str, a: &Array2<A>, b: &Array2<A>) {
    if a.dim() != b.dim() {
        c.check(&format!("{} shape {:?} vs {:?}", n, a.dim(), b.dim()), false);
        return;
    }
    for i in 0..a.nrows() {
        for j in 0..a.ncols() {
            A::claim_eq(c, &format!("{}[{},{}]", n, i, j), a[(i, j)], b[(i, j)]);
        }
    }
}
pub fn same_mat<A: Scalar>(c: &mut Ctx, n: &str, a: &Array2<A>, b: &Array2<A>) {
    if a.dim() != b.dim() {
        c.check(&format!("{} shape {:?} vs {:?}", n, a.dim(), b.dim()), false);
        return;
    }
    for i in 0..a.nrows() {
        for j in 0..a.ncols() {
            A::claim_same(c, &format!("{}[{},{}]", n, i, j), a[(i, j)], b[(i, j)]);
        }
    }
}
/// two computations of the same quantity: equal over the reals, natively up to rounding of the largest entry
pub fn agree_mat<A: Scalar>(c: &mut Ctx, n: &str, a: &Array2<A>, b: &Array2<A>) {
    let k = c.scale;
    if !A::SYM {
        let m = maxabs(a).max(maxabs(b));
        if m.is_finite() {
            c.scale = c.scale.max(m);
        }
    }
    eq_mat(c, n, a, b);
    c.scale = k;
}
/// a*b == r, native tolerance relative to the sizes of the factors
pub fn eq_prod<A: Scalar>(c: &mut Ctx, n: &str, a: &Array2<A>, b: &Array2<A>, r: &Array2<A>) {
    if a.ncols() != b.nrows() || a.nrows() != r.nrows() || b.ncols() != r.ncols() {
        c.check(&format!("{} shapes {:?} * {:?} vs {:?}", n, a.dim(), b.dim(), r.dim()), false);
        return;
    }
    if !A::SYM {
        c.scale = (maxabs(a) * maxabs(b)).max(maxabs(r));
        if !c.scale.is_finite() {
            c.scale = 1.0;
        }
    }
    let p = mm(a, b);
    eq_mat(c, n, &p, r);
    c.scale = 1.0;
}
/// columns orthonormal
pub fn orthonormal<A: Scalar>(c: &mut Ctx, n: &str, q: &Array2<A>) {
    let t = tr(q);
    let g = mm(&t, q);
    for i in 0..g.nrows() {
        for j in i..g.ncols() {
            A::claim_eq(c, &format!("{}^T*{}[{},{}]", n, n, i, j), g[(i, j)], A::lit(if i == j { 1.0 } else { 0.0 }));
        }
    }
}
/// without a scale of its own a quantity is as large as the inputs
fn sized<A: Scalar>(c: &mut Ctx, f: impl FnOnce(&mut Ctx)) {
    let k = c.scale;
    if !A::SYM && k == 1.0 {
        c.scale = c.unit;
    }
    f(c);
    c.scale = k;
}
pub fn zero<A: Scalar>(c: &mut Ctx, n: &str, x: A) {
    sized::<A>(c, |c| A::claim_eq(c, n, x, A::lit(0.0)));
}
pub fn nonneg<A: Scalar>(c: &mut Ctx, n: &str, x: A) {
    sized::<A>(c, |c| A::claim_sign(c, n, x, ZERO | POS));
}

/// Storage layouts
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Lay {
    C,
    F,
    RevRows,
    RevCols,
    Strided,
    StridedF,
}
pub const LAYS: [Lay; 6] = [Lay::C, Lay::F, Lay::RevRows, Lay::RevCols, Lay::Strided, Lay::StridedF];

/// An owned array (possibly with unusual strides) holding the values of `m`.
/// Padding cells of strided layouts hold `pad`.
pub fn laid<A: Scalar>(m: &Array2<A>, l: Lay, pad: A) -> Array2<A> {
    let (r, k) = m.dim();
    match l {
        Lay::C => {
            let mut o = Array2::from_elem((r, k), pad);
            o.assign(m);
            o
        }
        Lay::F => {
            let mut o = Array2::from_elem((r, k).f(), pad);
            o.assign(m);
            o
        }
        Lay::RevRows => {
            let mut o = Array2::from_elem((r, k), pad);
            o.invert_axis(Axis(0));
            o.assign(m);
            o
        }
        Lay::RevCols => {
            let mut o = Array2::from_elem((r, k), pad);
            o.invert_axis(Axis(1));
            o.assign(m);
            o
        }
        Lay::Strided => {
            let o = Array2::from_elem((2 * r + 1, 3 * k + 2), pad);
            let mut o = o.slice_move(s![1.., 2..]);
            o = o.slice_move(s![..;2, ..;3]);
            o.assign(m);
            o
        }
        Lay::StridedF => {
            let o = Array2::from_elem((2 * r + 1, 2 * k + 1).f(), pad);
            let mut o = o.slice_move(s![1..;2, 1..;2]);
            o.assign(m);
            o
        }
    }
}
/// Fixed rational orthogonal matrices
pub fn orth<A: Scalar>(n: usize, which: usize) -> Array2<A> {
    if which == 9 {
        // signed cyclic permutation
        let mut m = Array2::from_elem((n, n), A::lit(0.0));
        for i in 0..n {
            m[((i + 1) % n, i)] = A::lit(if i % 2 == 0 { 1.0 } else { -1.0 });
        }
        return m;
    }
    if which == 8 {
        return eye(n);
    }
    // I - 2 v v^T / |v|^2 with integer v, times a permutation / second reflector
    let vs: &[&[i64]] = match (n, which) {
        (1, _) => &[],
        (2, 0) => &[&[2, 1]],
        (2, _) => &[&[1, 3], &[1, 1]],
        (3, 0) => &[&[1, 1, 1]],
        (3, _) => &[&[1, -2, 2], &[1, 1, 0]],
        (4, 0) => &[&[1, 1, 1, 1]],
        (4, _) => &[&[1, 2, -1, 0], &[0, 1, 1, 1]],
        (5, _) => &[&[1, 1, 1, 1, 1]],
        _ => unreachable!(),
    };
    let mut m = eye::<A>(n);
    for v in vs {
        let nn: i64 = v.iter().map(|x| x * x).sum();
        let mut h = eye::<A>(n);
        for i in 0..n {
            for j in 0..n {
                h[(i, j)] = A::frac((if i == j { nn } else { 0 }) - 2 * v[i] * v[j], nn);
            }
        }
        m = mm(&m, &h);
    }
    m
}
/// upper triangular, symbolic; bit i of `pat` forces diagonal entry i to zero
pub fn upper_pat<A: Scalar>(c: &mut Ctx, n: &str, k: usize, pat: u32) -> Array2<A> {
    let mut m = Array2::from_elem((k, k), A::lit(0.0));
    for i in 0..k {
        for j in i..k {
            if i == j && pat.checked_shr(i as u32).unwrap_or(0) & 1 == 1 {
                continue;
            }
            m[(i, j)] = A::input(c, &format!("{}{}{}", n, i, j));
        }
    }
    m
}

/// fill of one cell, so that reads of cells that must not be read show up
pub fn with_upper<A: Scalar>(m: &Array2<A>, x: A) -> Array2<A> {
    let mut o = m.clone();
    for i in 0..m.nrows() {
        for j in i + 1..m.ncols() {
            o[(i, j)] = x;
        }
    }
    o
}
/// lower triangle mirrored
pub fn from_lower<A: Scalar>(m: &Array2<A>) -> Array2<A> {
    let n = m.nrows();
    let mut o = m.clone();
    for i in 0..n {
        for j in 0..i {
            o[(j, i)] = m[(i, j)];
        }
    }
    o
}
/// determinant by cofactor expansion
pub fn det<A: Scalar>(m: &Array2<A>) -> A {
    let n = m.nrows();
    match n {
        0 => A::lit(1.0),
        1 => m[(0, 0)],
        _ => {
            let mut s = A::lit(0.0);
            for j in 0..n {
                let mut k = Array2::from_elem((n - 1, n - 1), A::lit(0.0));
                for a in 1..n {
                    let mut q = 0;
                    for b in 0..n {
                        if b != j {
                            k[(a - 1, q)] = m[(a, b)];
                            q += 1;
                        }
                    }
                }
                let t = m[(0, j)] * det(&k);
                s = if j % 2 == 0 { s + t } else { s - t };
            }
            s
        }
    }
}
/// unit lower triangular, symbolic below the diagonal
pub fn unit_lower<A: Scalar>(c: &mut Ctx, n: &str, k: usize) -> Array2<A> {
    let mut m = eye::<A>(k);
    for i in 0..k {
        for j in 0..i {
            m[(i, j)] = A::input(c, &format!("{}{}{}", n, i, j));
        }
    }
    m
}
/// native tolerance for claims about `a`-sized quantities
pub fn set_scale<A: Scalar>(c: &mut Ctx, x: f64) {
    if !A::SYM {
        c.scale = if x.is_finite() { x.max(1e-300) } else { 1.0 };
    }
}
/// small fixed data with no symmetry, for parts of an input that are not symbolic
pub fn fixed<A: Scalar>(r: usize, k: usize, seed: i64) -> Array2<A> {
    let mut m = Array2::from_elem((r, k), A::lit(0.0));
    let mut s = seed * 7919 + 13;
    for i in 0..r {
        for j in 0..k {
            s = (s * 1103515245 + 12345).rem_euclid(1 << 31);
            m[(i, j)] = A::frac((s >> 16) % 9 - 4, 2);
        }
    }
    m
}
/// upper triangular: diagonal entries of `pat` zero, entries chosen by `f` symbolic, others fixed
pub fn upper_some<A: Scalar>(c: &mut Ctx, n: &str, k: usize, pat: u32, f: impl Fn(usize, usize) -> bool) -> Array2<A> {
    let g: Array2<A> = fixed(k, k, 11);
    let mut m = Array2::from_elem((k, k), A::lit(0.0));
    for i in 0..k {
        for j in i..k {
            if i == j && pat.checked_shr(i as u32).unwrap_or(0) & 1 == 1 {
                continue;
            }
            m[(i, j)] = if f(i, j) {
                A::input(c, &format!("{}{}{}", n, i, j))
            } else if i == j {
                A::frac(2 * i as i64 + 3, 2)
            } else {
                g[(i, j)]
            };
        }
    }
    m
}

/// L0 D L0^T, unit lower L0 of small integers, D squares, those flagged symbolic
pub fn large_pd<A: Scalar>(c: &mut Ctx, n: usize, free: &[usize]) -> Array2<A> {
    let mut l = eye::<A>(n);
    let g: Array2<A> = fixed(n, n, 23);
    for i in 0..n {
        for j in 0..i {
            if (i + 2 * j) % 3 == 0 || i == j + 1 {
                l[(i, j)] = g[(i, j)];
            }
        }
    }
    let d: Vec<A> = (0..n)
        .map(|i| {
            let x = if free.contains(&i) { A::input(c, &format!("x{}", i)) } else { A::frac(i as i64 % 3 + 1, 1) };
            A::assume_sign(c, x, crate::engine::POS);
            x * x
        })
        .collect();
    mm(&mm(&l, &diag(&d)), &tr(&l))
}
