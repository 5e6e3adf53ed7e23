use super::util::*;
use crate::ctx::*;
use crate::engine::*;
use crate::job;
use linfa_linalg::bidiagonal::Bidiagonal;
use linfa_linalg::cholesky::*;
use linfa_linalg::eigh::*;
use linfa_linalg::norm::Norm;
use linfa_linalg::qr::*;
use linfa_linalg::reflection::Reflection;
use linfa_linalg::svd::*;
use linfa_linalg::triangular::*;
use linfa_linalg::tridiagonal::SymmetricTridiagonal;
use linfa_linalg::Result;
use ndarray::prelude::*;
use ndarray::ArcArray2;

/// the six layouts plus transposed ones, all owned
fn owned<A: Scalar>(a: &Array2<A>) -> Vec<(String, Array2<A>)> {
    let pad = A::lit(7.0);
    let mut v: Vec<(String, Array2<A>)> = LAYS.iter().map(|&l| (format!("{:?}", l), laid(a, l, pad))).collect();
    for l in [Lay::C, Lay::RevRows, Lay::Strided] {
        v.push((format!("transposed {:?}", l), laid(&tr(a), l, pad).reversed_axes()));
    }
    v
}
/// same outcome: both an error of the same text, or agreeing parts
fn agree<A: Scalar>(c: &mut Ctx, n: &str, a: &Result<Vec<Array2<A>>>, b: &Result<Vec<Array2<A>>>) {
    match (a, b) {
        (Ok(x), Ok(y)) => {
            c.check(&format!("{}: number of parts", n), x.len() == y.len());
            for (i, (p, q)) in x.iter().zip(y).enumerate() {
                agree_mat(c, &format!("{} part {}", n, i), p, q);
            }
        }
        (Err(x), Err(y)) => c.check(&format!("{}: error {} vs {}", n, x, y), x.to_string() == y.to_string()),
        _ => c.check(&format!("{}: one form fails", n), false),
    }
}
fn v2<A: Scalar>(x: Array1<A>) -> Array2<A> {
    x.insert_axis(Axis(1))
}
/// runs every form of an operation over every layout
/// by_ref gets a view (or a reference to the owned array), into the array itself
fn over<A: Scalar>(
    c: &mut Ctx,
    a: &Array2<A>,
    by_ref: &[(&str, &dyn Fn(ArrayView2<A>) -> Result<Vec<Array2<A>>>)],
    into: &[(&str, &dyn Fn(Array2<A>) -> Result<Vec<Array2<A>>>)],
    shared: &[(&str, &dyn Fn(ArcArray2<A>) -> Result<Vec<Array2<A>>>)],
    inplace: &[(&str, &dyn Fn(ArrayViewMut2<A>) -> Result<Vec<Array2<A>>>)],
) {
    let base = if let Some(f) = by_ref.first() { f.1(a.view()) } else { into[0].1(a.clone()) };
    for (l, x) in owned(a) {
        for (n, f) in by_ref {
            let r = f(x.view());
            agree(c, &format!("{} by reference, {}", n, l), &base, &r);
            same_mat(c, &format!("{} argument, {}", n, l), &x, a);
        }
        for (n, f) in into {
            agree(c, &format!("{} consuming, {}", n, l), &base, &f(x.clone()));
        }
    }
    for (n, f) in shared {
        let keep = a.to_shared();
        agree(c, &format!("{} consuming shared", n), &base, &f(keep.clone()));
        same_mat(c, &format!("{} other handle", n), &keep.to_owned(), a);
    }
    let pad = A::lit(5.0);
    let (r, k) = a.dim();
    for (n, f) in inplace {
        for step in [1usize, 2] {
            let mut big = Array2::from_elem((step * r + 3, step * k + 2), pad);
            {
                let mut w = big.slice_mut(s![1..1 + step * r;step, 2..2 + step * k;step]);
                w.assign(a);
                agree(c, &format!("{} on a window, step {}", n, step), &base, &f(w));
            }
            let mut bad = 0;
            for ((i, j), x) in big.indexed_iter() {
                let inside = i >= 1 && i < 1 + step * r && (i - 1) % step == 0 && j >= 2 && j < 2 + step * k && (j - 2) % step == 0;
                if !inside && *x != pad {
                    bad += 1;
                }
            }
            c.check(&format!("{} outside of the window, step {}", n, step), bad == 0);
        }
    }
}
fn tri<A: Scalar>(c: &mut Ctx, a: Array2<A>) {
    for (nm, u) in [("upper", UPLO::Upper), ("lower", UPLO::Lower)] {
        let up = nm == "upper";
        let k = || if up { UPLO::Upper } else { UPLO::Lower };
        let _ = u;
        over(
            c,
            &a,
            &[],
            &[
                ("into_triangular", &|x| x.into_triangular(k()).map(|x| vec![x])),
                ("triangular_inplace", &|mut x| x.triangular_inplace(k()).map(|x| vec![x.clone()])),
            ],
            &[("into_triangular", &|x| x.into_triangular(k()).map(|x| vec![x.to_owned()]))],
            &[("triangular_inplace", &|mut x| x.triangular_inplace(k()).map(|x| vec![x.to_owned()]))],
        );
        let t = a.is_triangular(k());
        for (l, x) in owned(&a) {
            c.check(&format!("is_triangular {} {}", nm, l), x.is_triangular(k()) == t && x.view().is_triangular(k()) == t);
        }
    }
}
fn solve<A: Scalar>(c: &mut Ctx, n: usize, m: usize) {
    let a: Array2<A> = mat(c, "a", n, n);
    for i in 0..n {
        A::assume_sign(c, a[(i, i)], NEG | POS);
    }
    let b: Array2<A> = mat(c, "b", n, m);
    solve_with(c, a, b, &[true, false])
}
fn solve_with<A: Scalar>(c: &mut Ctx, a: Array2<A>, b: Array2<A>, ups: &[bool]) {
    for &up in ups {
        let k = || if up { UPLO::Upper } else { UPLO::Lower };
        over(c, &a, &[("solve_triangular", &|x| x.solve_triangular(&b, k()).map(|x| vec![x]))], &[], &[], &[]);
        over(
            c,
            &b,
            &[("solve_triangular rhs", &|x| a.solve_triangular(&x, k()).map(|x| vec![x]))],
            &[("solve_triangular_into", &|x| a.solve_triangular_into(x, k()).map(|x| vec![x]))],
            &[("solve_triangular_into", &|x| a.solve_triangular_into(x, k()).map(|x| vec![x.to_owned()]))],
            &[("solve_triangular_inplace", &|mut x| a.solve_triangular_inplace(&mut x, k()).map(|x| vec![x.to_owned()]))],
        );
    }
}
fn chol<A: Scalar>(c: &mut Ctx, n: usize, m: usize) {
    let a: Array2<A> = mat(c, "a", n, n);
    let b: Array2<A> = mat(c, "b", n, m);
    chol_with(c, a, b)
}
fn chol_with<A: Scalar>(c: &mut Ctx, a: Array2<A>, b: Array2<A>) {
    over(
        c,
        &a,
        &[("cholesky", &|x| x.cholesky().map(|x| vec![x]))],
        &[
            ("cholesky_into", &|x| x.cholesky_into().map(|x| vec![x])),
            ("cholesky_inplace", &|mut x| x.cholesky_inplace().map(|x| vec![x.clone()])),
        ],
        &[("cholesky_into", &|x| x.cholesky_into().map(|x| vec![x.to_owned()]))],
        &[("cholesky_inplace", &|mut x| x.cholesky_inplace().map(|x| vec![x.to_owned()]))],
    );
    over(
        c,
        &a,
        &[("cholesky_dirty", &|x| x.cholesky_dirty().map(|x| vec![x]))],
        &[
            ("cholesky_into_dirty", &|x| x.cholesky_into_dirty().map(|x| vec![x])),
            ("cholesky_inplace_dirty", &|mut x| x.cholesky_inplace_dirty().map(|x| vec![x.clone()])),
        ],
        &[],
        &[("cholesky_inplace_dirty", &|mut x| x.cholesky_inplace_dirty().map(|x| vec![x.to_owned()]))],
    );
    over(
        c,
        &a,
        &[("invc", &|x| x.invc().map(|x| vec![x]))],
        &[("invc_inplace", &|mut x| x.invc_inplace().map(|x| vec![x]))],
        &[],
        &[("invc_inplace", &|mut x| x.invc_inplace().map(|x| vec![x]))],
    );
    over(c, &a, &[], &[("solvec", &|mut x| x.solvec(&b).map(|x| vec![x])), ("solvec_into", &|mut x| x.solvec_into(b.clone()).map(|x| vec![x]))], &[], &[]);
    over(
        c,
        &b,
        &[("solvec rhs", &|x| a.clone().solvec(&x).map(|x| vec![x]))],
        &[("solvec_into rhs", &|x| a.clone().solvec_into(x).map(|x| vec![x]))],
        &[],
        &[("solvec_inplace rhs", &|mut x| a.clone().solvec_inplace(&mut x).map(|x| vec![x.to_owned()]))],
    );
}
fn qr<A: Scalar>(c: &mut Ctx, a: Array2<A>, m: usize) {
    let (n, k) = a.dim();
    let b: Array2<A> = fixed(n, m, 3);
    let bt: Array2<A> = fixed(k, m, 4);
    macro_rules! parts {
        ($d:expr) => {{
            let d = $d?;
            let mut v = vec![d.generate_q()];
            for r in [d.solve(&b), d.solve_into(b.clone()), d.solve_tr(&bt), d.solve_tr_into(bt.clone())] {
                match r {
                    Ok(x) => v.push(x),
                    Err(e) => v.push(Array2::from_elem((1, 1), A::lit(e.to_string().len() as f64))),
                }
            }
            if n == k {
                if let Ok(x) = d.inverse() {
                    v.push(x);
                }
            }
            v.push(Array2::from_elem((1, 1), A::lit(if d.is_invertible() { 1.0 } else { 0.0 })));
            let (q, r) = d.into_decomp();
            v.push(q);
            v.push(r.to_owned());
            Ok(v)
        }};
    }
    over(
        c,
        &a,
        &[("qr", &|x| parts!(x.qr()))],
        &[("qr_into", &|x| parts!(x.qr_into()))],
        &[],
        &[("qr_into", &|x| parts!(x.qr_into()))],
    );
    if n > 0 && k > 0 {
        over(
            c,
            &a,
            &[],
            &[("least_squares", &|x| x.least_squares(&b).map(|x| vec![x])), ("least_squares_into", &|x| x.least_squares_into(b.clone()).map(|x| vec![x]))],
            &[],
            &[("least_squares", &|x| x.least_squares(&b).map(|x| vec![x]))],
        );
        over(
            c,
            &b,
            &[("least_squares rhs", &|x| a.clone().least_squares(&x).map(|x| vec![x]))],
            &[("least_squares_into rhs", &|x| a.clone().least_squares_into(x).map(|x| vec![x]))],
            &[],
            &[("least_squares_into rhs", &|x| a.clone().least_squares_into(x).map(|x| vec![x]))],
        );
    }
}
fn tridiag<A: Scalar>(c: &mut Ctx, a: Array2<A>) {
    macro_rules! parts {
        ($d:expr) => {{
            let d = $d?;
            let q = d.generate_q();
            let (x, y) = d.clone().into_diagonals();
            Ok(vec![q, v2(x), v2(y), d.into_tridiag_matrix().to_owned()])
        }};
    }
    // a mutable window cannot be cloned with its decomposition
    over(
        c,
        &a,
        &[],
        &[("sym_tridiagonal", &|x| parts!(x.sym_tridiagonal()))],
        &[("sym_tridiagonal", &|x| parts!(x.sym_tridiagonal()))],
        &[],
    );
    over(
        c,
        &a,
        &[],
        &[("sym_tridiagonal", &|x| x.sym_tridiagonal().map(|d| vec![d.generate_q(), d.into_tridiag_matrix().to_owned()]))],
        &[],
        &[("sym_tridiagonal", &|x| x.sym_tridiagonal().map(|d| vec![d.generate_q(), d.into_tridiag_matrix().to_owned()]))],
    );
}
fn bidiag<A: Scalar>(c: &mut Ctx, a: Array2<A>) {
    macro_rules! parts {
        ($d:expr) => {{
            let d = $d?;
            let (x, y) = d.clone().into_diagonals();
            let (u, v) = (d.generate_u(), d.generate_vt());
            let f = Array2::from_elem((1, 1), A::lit(if d.is_upper_diag() { 1.0 } else { 0.0 }));
            Ok(vec![u, v2(x), v2(y), v, f, d.into_b()])
        }};
    }
    over(c, &a, &[], &[("bidiagonal", &|x| parts!(x.bidiagonal()))], &[("bidiagonal", &|x| parts!(x.bidiagonal()))], &[]);
    over(
        c,
        &a,
        &[],
        &[("bidiagonal", &|x| x.bidiagonal().map(|d| vec![d.generate_u(), d.generate_vt(), d.into_b()]))],
        &[],
        &[("bidiagonal", &|x| x.bidiagonal().map(|d| vec![d.generate_u(), d.generate_vt(), d.into_b()]))],
    );
}
fn eig<A: Scalar>(c: &mut Ctx, a: Array2<A>) {
    over(
        c,
        &a,
        &[("eigh", &|x| x.eigh().map(|(w, v)| vec![v2(w), v]))],
        &[("eigh_into", &|x| x.eigh_into().map(|(w, v)| vec![v2(w), v]))],
        &[("eigh_into", &|x| x.eigh_into().map(|(w, v)| vec![v2(w), v]))],
        &[("eigh_into", &|x| x.eigh_into().map(|(w, v)| vec![v2(w), v]))],
    );
    over(
        c,
        &a,
        &[("eigvalsh", &|x| x.eigvalsh().map(|w| vec![v2(w)]))],
        &[("eigvalsh_into", &|x| x.eigvalsh_into().map(|w| vec![v2(w)])), ("eigh_into", &|x| x.eigh_into().map(|(w, _)| vec![v2(w)]))],
        &[],
        &[("eigvalsh_into", &|x| x.eigvalsh_into().map(|w| vec![v2(w)]))],
    );
}
/// sorting right after decomposing, for every layout
fn eig_sorted<A: Scalar>(c: &mut Ctx, a: Array2<A>) {
    over(
        c,
        &a,
        &[
            ("eigvalsh", &|x| x.eigvalsh().map(|w| vec![v2(w.sort_eig_asc())])),
            ("eigh", &|x| x.eigh().map(|w| vec![v2(w.sort_eig_asc().0)])),
        ],
        &[("eigvalsh_into", &|x| x.eigvalsh_into().map(|w| vec![v2(w.sort_eig_asc())]))],
        &[],
        &[("eigvalsh_into", &|x| x.eigvalsh_into().map(|w| vec![v2(w.sort_eig_asc())]))],
    );
}
fn svd_parts<A: Scalar>(r: Result<(Option<Array2<A>>, Array1<A>, Option<Array2<A>>)>) -> Result<Vec<Array2<A>>> {
    r.map(|(u, s, v)| {
        let mut o = vec![v2(s)];
        o.extend(u);
        o.extend(v);
        o
    })
}
fn svd<A: Scalar>(c: &mut Ctx, a: Array2<A>, all: bool) {
    let flags: &[(bool, bool)] = if all { &[(true, true), (true, false), (false, true), (false, false)] } else { &[(true, true)] };
    for &(cu, cv) in flags {
        over(
            c,
            &a,
            &[("svd", &|x| svd_parts(x.svd(cu, cv)))],
            &[("svd_into", &|x| svd_parts(x.svd_into(cu, cv)))],
            &[("svd_into", &|x| svd_parts(x.svd_into(cu, cv)))],
            &[("svd_into", &|x| svd_parts(x.svd_into(cu, cv)))],
        );
    }
}
fn norms<A: Scalar>(c: &mut Ctx, n: usize, m: usize) {
    let a: Array2<A> = mat(c, "a", n, m);
    let one = |x: A| Ok(vec![Array2::from_elem((1, 1), x)]);
    over(c, &a, &[("norm_l1", &|x| one(x.norm_l1()))], &[("norm_l1", &|x| one(x.norm_l1()))], &[], &[]);
    over(c, &a, &[("norm_l2", &|x| one(x.norm_l2()))], &[("norm_l2", &|x| one(x.norm_l2()))], &[], &[]);
    over(c, &a, &[("norm_max", &|x| one(x.norm_max()))], &[("norm_max", &|x| one(x.norm_max()))], &[], &[]);
}
fn reflect<A: Scalar>(c: &mut Ctx, n: usize, m: usize) {
    let a: Array2<A> = mat(c, "a", n, m);
    let ax: Array1<A> = (0..n).map(|i| A::input(c, &format!("n{}", i))).collect();
    let bias = A::input(c, "b");
    let mut wide = Array1::from_elem(3 * n + 1, A::lit(9.0));
    for i in 0..n {
        wide[3 * i + 1] = ax[i];
    }
    let rev: Array1<A> = ax.iter().rev().cloned().collect();
    let axes: Vec<(&str, ArrayView1<A>)> = vec![("plain", ax.view()), ("strided", wide.slice(s![1..;3])), ("reversed", rev.slice(s![..;-1]))];
    for (an, axv) in axes {
        let want = {
            let mut y = a.clone();
            Reflection::new(ax.view(), bias).reflect_cols(&mut y);
            let mut z = tr(&a);
            Reflection::new(ax.view(), bias).reflect_rows(&mut z);
            vec![y, z]
        };
        for (l, x) in owned(&a) {
            let mut y = x.clone();
            Reflection::new(axv, bias).reflect_cols(&mut y);
            agree_mat(c, &format!("columns, {} axis, {}", an, l), &want[0], &y);
            let mut z = x.clone().reversed_axes();
            Reflection::new(axv, bias).reflect_rows(&mut z);
            agree_mat(c, &format!("rows, {} axis, {}", an, l), &want[1], &z);
        }
    }
}
/// nxn symmetric out of blocks that deflate at once, permuted
fn decoupled<A: Scalar>(c: &mut Ctx, n: usize) -> Array2<A> {
    let mut a = Array2::from_elem((n, n), A::lit(0.0));
    let (x, y) = (A::input(c, "x"), A::input(c, "y"));
    for i in 0..n {
        a[(i, i)] = A::lit(i as f64 * 1.5 - 1.0);
    }
    a[(0, 0)] = x;
    a[(0, 1)] = y;
    a[(1, 0)] = y;
    if n > 3 {
        a[(2, 3)] = A::lit(2.0);
        a[(3, 2)] = A::lit(2.0);
    }
    a
}

pub fn jobs(t: bool) -> Vec<Job> {
    let mut v = vec![];
    for (n, m) in [(1usize, 1usize), (2, 2), (3, 3), (2, 3), (0, 0)] {
        job!(v, format!("triangular-{}x{}", n, m), |c, A| {
            let a = mat::<A>(c, "a", n, m);
            tri::<A>(c, a)
        })
        .desc("entries symbolic, every layout and form");
    }
    for n in 0..=if t { 5 } else { 4 } {
        for m in [0usize, 1, 2, 3] {
            if n == 0 && m != 1 {
                continue;
            }
            job!(v, format!("solve-{}-rhs{}", n, m), |c, A| solve::<A>(c, n, m)).desc("matrix and right-hand sides symbolic, every layout and form");
            if n <= 3 {
                job!(v, format!("cholesky-{}-rhs{}", n, m), |c, A| chol::<A>(c, n, m)).desc("matrix and right-hand sides symbolic, every layout and form");
            }
        }
    }
    for (n, k) in [(1usize, 1usize), (2, 1), (2, 2), (3, 1), (3, 2), (4, 1), (1, 2), (1, 3)] {
        for m in [1usize, 2] {
            job!(v, format!("qr-{}x{}-rhs{}", n, k, m), |c, A| {
                let a = mat::<A>(c, "a", n, k);
                qr::<A>(c, a, m)
            })
            .desc("all entries symbolic, every layout and form");
        }
    }
    for (r, k) in [(3usize, 3usize), (4, 3), (4, 4)] {
        for w in [1usize, 9] {
            if (w, r) == (1, 4) && k == 4 && !t {
                continue;
            }
            job!(v, format!("qr-fam{}-{}x{}", w, r, k), |c, A| {
                let q = orth::<A>(r, w).slice(s![.., ..k]).to_owned();
                let a = mm(&q, &upper_some::<A>(c, "r", k, 0, |i, j| i == j));
                qr::<A>(c, a, 2)
            })
            .desc("A = Q0*R0, diagonal of R0 symbolic, every layout and form");
        }
    }
    for (r, n) in [(3usize, 2usize), (3, 3), (4, 3)] {
        for wide in [false, true] {
            for (w, pd, po) in [(9usize, 0u32, 0u32), (9, 2, 0), (9, 0, 1), (0, 0, 0)] {
                if wide && r == n || w == 0 && r == 4 {
                    continue;
                }
                job!(v, format!("bidiagonal-fam{}-{}x{}{}-d{}-o{}", w, r, n, if wide { "t" } else { "" }, pd, po), |c, A| {
                    let a = super::c08::member::<A>(c, r, n, w, pd, po, wide);
                    bidiag::<A>(c, a)
                })
                .secs(20)
                .desc("A = U0*B0*V0^T, B0 bidiagonal symbolic, every layout and form");
            }
            for (w, pd, po) in [(8usize, 0u32, 2u32), (9, 0, 2), (9, 2, 2), (9, 1, 2)] {
                if wide && r == n || n == 2 && po == 2 && pd == 0 {
                    continue;
                }
                job!(v, format!("svd-fam{}-{}x{}{}-d{}-o{}", w, r, n, if wide { "t" } else { "" }, pd, po), |c, A| {
                    let a = super::c10::member::<A>(c, r, n, w, pd, if n == 2 { 0 } else { po }, if n == 2 { None } else { Some(2) }, wide);
                    svd::<A>(c, a, false)
                })
                .secs(20)
                .desc("A = U0*B0*V0^T decoupling into blocks of order two, every layout and form");
            }
        }
    }
    for n in [3usize, 4] {
        for (w, pat) in [(9usize, 2u32), (0, 2), (9, 6), (9, 3)] {
            job!(v, format!("eigh-fam{}-{}-p{}", w, n, pat), |c, A| {
                let a = super::c09::member::<A>(c, n, w, pat);
                eig::<A>(c, a)
            })
            .secs(20)
            .desc("A = Q0*T0*Q0^T decoupling into blocks of order two, every layout and form");
            job!(v, format!("tridiagonal-fam{}-{}-p{}", w, n, pat - 2), |c, A| {
                let t = super::c07::tridiag::<A>(c, n, pat - 2, n);
                let q = super::c07::emb::<A>(n, w);
                let a = mm(&mm(&q, &t), &tr(&q));
                tridiag::<A>(c, a)
            })
            .secs(20)
            .desc("A = Q0*T0*Q0^T, T0 tridiagonal symbolic, every layout and form");
        }
    }
    for n in 1..=3usize {
        job!(v, format!("tridiagonal-{}", n), |c, A| {
            let a = symm::<A>(c, "a", n);
            tridiag::<A>(c, a)
        })
        .desc("all entries symbolic, every layout and form");
        if n < 3 {
            job!(v, format!("eigh-{}", n), |c, A| {
                let a = symm::<A>(c, "a", n);
                eig::<A>(c, a)
            })
            .desc("all entries symbolic, every layout and form");
            job!(v, format!("eigh-sorted-{}", n), |c, A| {
                let a = symm::<A>(c, "a", n);
                eig_sorted::<A>(c, a)
            })
            .desc("all entries symbolic, every layout and form, eigenvalues sorted");
        }
        job!(v, format!("eigh-blocks-{}", n + 1), |c, A| {
            let a = decoupled::<A>(c, n + 1);
            eig::<A>(c, a)
        })
        .desc("2x2 blocks, one of them symbolic, every layout and form");
    }
    for (n, k) in [(1usize, 1usize), (2, 1), (1, 2), (2, 2), (3, 1), (1, 3), (3, 2), (2, 3)] {
        job!(v, format!("bidiagonal-{}x{}", n, k), |c, A| {
            let a = mat::<A>(c, "a", n, k);
            bidiag::<A>(c, a)
        })
        .desc("all entries symbolic, every layout and form");
        if n.min(k) == 1 {
            job!(v, format!("svd-{}x{}", n, k), |c, A| {
                let a = mat::<A>(c, "a", n, k);
                svd::<A>(c, a, true)
            })
            .desc("all entries symbolic, every layout and form");
        } else if n == k {
            for q in 0..4usize {
                job!(v, format!("svd-{}x{}-e{}", n, k, q), |c, A| {
                    let mut a = fixed::<A>(n, k, 3 + q as i64);
                    a[(q / 2, q % 2)] = A::input(c, "a");
                    svd::<A>(c, a, true)
                })
                .secs(20)
                .desc("one entry symbolic, every layout and form");
            }
        }
    }
    // sizes beyond any block width
    for n in [5usize, 9, 17, 33] {
        job!(v, format!("large-triangular-{}", n), |c, A| {
            let mut a = fixed::<A>(n, n, 13);
            a[(n - 1, 0)] = A::input(c, "lo");
            a[(0, n - 1)] = A::input(c, "up");
            a[(n / 2, n / 2 - 1)] = A::input(c, "below");
            tri::<A>(c, a)
        })
        .desc("three entries symbolic, every layout and form");
        for up in [true, false] {
            job!(v, format!("large-solve-{}-{}", n, up as u8), |c, A| {
                let (a, b) = super::c02::big::<A>(c, n, 5, if up { UPLO::Upper } else { UPLO::Lower }, n / 2);
                solve_with(c, a, b, &[up])
            })
            .desc("few entries symbolic, every layout and form");
        }
        if n > 17 {
            continue;
        }
        job!(v, format!("large-cholesky-{}", n), |c, A| {
            let a = large_pd::<A>(c, n, &[n / 2]);
            let mut b: Array2<A> = fixed(n, 5, 7);
            b[(n / 3, 1)] = A::input(c, "b");
            chol_with(c, a, b)
        })
        .desc("A = L0 D L0^T, one entry of D and of B symbolic, every layout and form");
        for extra in [0usize, 2] {
            if n > 9 {
                continue;
            }
            job!(v, format!("large-qr-{}x{}", n + extra, n), |c, A| {
                let q = orth::<A>(n + extra, 9).slice(s![.., ..n]).to_owned();
                let a = mm(&q, &upper_some::<A>(c, "r", n, 0, |i, j| i == j && i == n / 2));
                qr::<A>(c, a, 2)
            })
            .secs(20)
            .desc("A = Q0*R0, one diagonal entry of R0 symbolic, every layout and form");
            for wide in [false, true] {
                if wide && extra == 0 {
                    continue;
                }
                job!(v, format!("large-bidiagonal-{}x{}{}", n + extra, n, if wide { "t" } else { "" }), |c, A| {
                    let a = super::c08::big::<A>(c, n + extra, n, n / 2, wide);
                    bidiag::<A>(c, a)
                })
                .secs(20)
                .desc("A = P*B0*Q, one row of B0 symbolic, every layout and form");
                job!(v, format!("large-svd-{}x{}{}", n + extra, n, if wide { "t" } else { "" }), |c, A| {
                    let a = super::c10::big::<A>(c, n + extra, n, 0, wide);
                    svd::<A>(c, a, false)
                })
                .secs(20)
                .desc("decoupled bidiagonal matrix with one block of order two, every layout and form");
            }
        }
        job!(v, format!("large-eigh-{}", n), |c, A| {
            let a = super::c09::big::<A>(c, n, 9, 1);
            eig::<A>(c, a)
        })
        .secs(20)
        .desc("blocks of order one and two, one symbolic, every layout and form");
    }
    for (n, m) in [(1usize, 1usize), (2, 2), (2, 3), (3, 2), (0, 2)] {
        job!(v, format!("norm-{}x{}", n, m), |c, A| norms::<A>(c, n, m)).desc("entries symbolic, every layout and form");
        if n > 0 {
            job!(v, format!("reflect-{}x{}", n, m), |c, A| reflect::<A>(c, n, m)).desc("axis, bias and entries symbolic, every layout of matrix and axis");
        }
    }
    v
}
