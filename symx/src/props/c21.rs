use super::util::*;
use super::{c07, c08, c09, c10};
use crate::ctx::*;
use crate::engine::POS;
use crate::job;
use linfa_linalg::bidiagonal::*;
use linfa_linalg::cholesky::*;
use linfa_linalg::eigh::*;
use linfa_linalg::qr::*;
use linfa_linalg::svd::*;
use linfa_linalg::triangular::*;
use linfa_linalg::tridiagonal::*;
use ndarray::prelude::*;

/// the scale factor: a number (as exponent of two) or a positive symbol
#[derive(Clone, Copy)]
enum K {
    Two(i32),
    Any,
}
fn factor<A: Scalar>(c: &mut Ctx, k: K) -> A {
    match k {
        K::Two(e) if e >= 0 => A::frac(1i64 << e, 1),
        K::Two(e) => A::frac(1, 1i64 << -e),
        K::Any => {
            let x = A::input(c, "k");
            A::assume_sign(c, x, POS);
            if !A::SYM {
                // a power of two scales floating-point numbers exactly, so that degenerate input
                // (decided by rounding noise) can be compared as well
                let e = x.approx().log2().round().clamp(-60.0, 60.0);
                return A::lit(e.exp2());
            }
            x
        }
    }
}
fn times<A: Scalar>(a: &Array2<A>, k: A) -> Array2<A> {
    Array2::from_shape_fn(a.dim(), |(i, j)| a[(i, j)] * k)
}
/// y = k x
fn eqk<A: Scalar>(c: &mut Ctx, nm: &str, y: &Array2<A>, x: &Array2<A>, k: A) {
    c.check(&format!("{}: shape", nm), x.dim() == y.dim());
    if x.dim() != y.dim() {
        return;
    }
    set_scale::<A>(c, maxabs(x));
    for i in 0..x.nrows() {
        for j in 0..x.ncols() {
            if A::SYM {
                A::claim_eq(c, &format!("{}[{},{}]", nm, i, j), y[(i, j)], x[(i, j)] * k);
            } else {
                A::claim_eq(c, &format!("{}[{},{}]", nm, i, j), y[(i, j)] / k, x[(i, j)]);
            }
        }
    }
    c.scale = 1.0;
}
fn col<A: Scalar>(v: &Array1<A>) -> Array2<A> {
    v.clone().insert_axis(Axis(1))
}
fn qr<A: Scalar>(c: &mut Ctx, a: Array2<A>, k: K) {
    let k: A = factor(c, k);
    let one = A::lit(1.0);
    let b = times(&a, k);
    let (d, e) = (a.qr().unwrap(), b.qr().unwrap());
    c.check("invertible", d.is_invertible() == e.is_invertible());
    let (q, r) = d.into_decomp();
    let (q2, r2) = e.into_decomp();
    eqk(c, "R", &r2, &r, k);
    eqk(c, "Q", &q2, &q, one);
}
/// full rank: solutions
fn solve<A: Scalar>(c: &mut Ctx, a: Array2<A>, k: K) {
    let k: A = factor(c, k);
    let one = A::lit(1.0);
    let b = times(&a, k);
    let rhs: Array2<A> = fixed(a.nrows(), 1, 5);
    let rhs2 = times(&rhs, k);
    let (d, e) = (a.qr().unwrap(), b.qr().unwrap());
    match (d.solve(&rhs), e.solve(&rhs), e.solve(&rhs2)) {
        (Ok(x), Ok(y), Ok(z)) => {
            eqk(c, "solution of k A x = b", &y, &x, one / k);
            eqk(c, "solution of k A x = k b", &z, &x, one);
        }
        (x, y, z) => c.check("solvable alike", x.is_ok() == y.is_ok() && y.is_ok() == z.is_ok()),
    }
    if a.nrows() == a.ncols() {
        match (d.inverse(), e.inverse()) {
            (Ok(x), Ok(y)) => eqk(c, "inverse", &y, &x, one / k),
            (x, y) => c.check("invertible alike", x.is_ok() == y.is_ok()),
        }
    }
}
fn tri<A: Scalar>(c: &mut Ctx, n: usize, k: K) {
    let a: Array2<A> = mat(c, "a", n, n);
    let k: A = factor(c, k);
    let one = A::lit(1.0);
    for i in 0..n {
        A::assume_sign(c, a[(i, i)], crate::engine::NEG | POS);
    }
    let rhs: Array2<A> = mat(c, "b", n, 1);
    for u in [UPLO::Upper, UPLO::Lower] {
        let x = a.solve_triangular(&rhs, u).unwrap();
        let y = times(&a, k).solve_triangular(&rhs, u).unwrap();
        eqk(c, "solution", &y, &x, one / k);
        c.check("triangular", a.is_triangular(u) == times(&a, k).is_triangular(u));
    }
}
/// k is the square of the factor's factor
fn chol<A: Scalar>(c: &mut Ctx, a: Array2<A>, k: K) {
    let h: A = factor(c, k);
    let k = h * h;
    let b = times(&a, k);
    match (a.cholesky(), b.cholesky()) {
        (Ok(x), Ok(y)) => {
            eqk(c, "L", &y, &x, h);
            if let (Ok(x), Ok(y)) = (a.invc(), b.invc()) {
                eqk(c, "inverse", &y, &x, A::lit(1.0) / k);
            }
        }
        (x, y) => c.check("positive definite alike", x.is_ok() == y.is_ok()),
    }
}
fn tridiag<A: Scalar>(c: &mut Ctx, a: Array2<A>, k: K) {
    let k: A = factor(c, k);
    let (d, e) = (a.clone().sym_tridiagonal().unwrap(), times(&a, k).sym_tridiagonal().unwrap());
    eqk(c, "Q", &e.generate_q(), &d.generate_q(), A::lit(1.0));
    let t = d.into_tridiag_matrix().to_owned();
    eqk(c, "T", &e.into_tridiag_matrix().to_owned(), &t, k);
    trace(c, "T", &a, &t.diag().to_vec());
}
fn trace<A: Scalar>(c: &mut Ctx, nm: &str, a: &Array2<A>, w: &[A]) {
    set_scale::<A>(c, maxabs(a));
    let mut t = A::lit(0.0);
    for i in 0..w.len() {
        t = t + w[i] - a[(i, i)];
    }
    zero(c, &format!("trace of {}", nm), t);
    c.scale = 1.0;
}
fn frobenius<A: Scalar>(c: &mut Ctx, nm: &str, a: &Array2<A>, w: impl Iterator<Item = A>) {
    if A::SYM && A::epsilon() != A::lit(0.0) {
        return; // what a visible tolerance drops changes the norm
    }
    let mut t = A::lit(0.0);
    for x in w {
        t = t + x * x;
    }
    for x in a.iter() {
        t = t - *x * *x;
    }
    let m = maxabs(a);
    set_scale::<A>(c, m * m);
    zero(c, &format!("Frobenius norm of {}", nm), t);
    c.scale = 1.0;
}
fn bidiag<A: Scalar>(c: &mut Ctx, a: Array2<A>, k: K) {
    let k: A = factor(c, k);
    let one = A::lit(1.0);
    let (d, e) = (a.clone().bidiagonal().unwrap(), times(&a, k).bidiagonal().unwrap());
    eqk(c, "U", &e.generate_u(), &d.generate_u(), one);
    eqk(c, "Vt", &e.generate_vt(), &d.generate_vt(), one);
    let b = d.into_b();
    eqk(c, "B", &e.into_b(), &b, k);
    frobenius(c, "B", &a, b.iter().copied());
}
fn eig<A: Scalar>(c: &mut Ctx, a: Array2<A>, k: K) {
    let k: A = factor(c, k);
    let b = times(&a, k);
    match (a.eigh(), b.eigh()) {
        (Ok((w, v)), Ok((w2, v2))) => {
            eqk(c, "values", &col(&w2), &col(&w), k);
            eqk(c, "vectors", &v2, &v, A::lit(1.0));
            trace(c, "values", &a, &w.to_vec());
            frobenius(c, "values", &a, w.iter().copied());
        }
        _ => c.check("succeeds", false),
    }
    match (a.eigvalsh(), b.eigvalsh()) {
        (Ok(w), Ok(w2)) => {
            eqk(c, "values only", &col(&w2), &col(&w), k);
            trace(c, "values only", &a, &w.to_vec());
        }
        _ => c.check("succeeds", false),
    }
}
fn svds<A: Scalar>(c: &mut Ctx, a: Array2<A>, k: K) {
    let k: A = factor(c, k);
    let one = A::lit(1.0);
    let b = times(&a, k);
    match (a.svd(true, true), b.svd(true, true)) {
        (Ok((u, s, v)), Ok((u2, s2, v2))) => {
            eqk(c, "values", &col(&s2), &col(&s), k);
            eqk(c, "U", &u2.unwrap(), &u.unwrap(), one);
            eqk(c, "Vt", &v2.unwrap(), &v.unwrap(), one);
            frobenius(c, "values", &a, s.iter().copied());
        }
        _ => c.check("succeeds", false),
    }
}
/// same singular values of the transpose (power sums determine the values)
fn transposed<A: Scalar>(c: &mut Ctx, a: Array2<A>) {
    match (a.svd(false, false), tr(&a).svd(false, false)) {
        (Ok((_, s, _)), Ok((_, s2, _))) => {
            c.check("count", s.len() == s2.len());
            let m = maxabs(&a);
            let mut sc = 1.0;
            let (mut p, mut q) = (s.clone(), s2.clone());
            for e in 1..=s.len() {
                sc *= m;
                set_scale::<A>(c, sc);
                let sum = |x: &Array1<A>| x.iter().fold(A::lit(0.0), |t, y| t + *y);
                A::claim_eq(c, &format!("power sum {}", e), sum(&p), sum(&q));
                for i in 0..p.len() {
                    p[i] = p[i] * s[i];
                    q[i] = q[i] * s2[i];
                }
            }
            c.scale = 1.0;
            frobenius(c, "transpose", &a, s2.iter().copied());
        }
        _ => c.check("succeeds", false),
    }
}
/// input that already has the form asked for comes back, the factors being the identity up to signs
fn reduced<A: Scalar>(c: &mut Ctx, n: usize, op: usize) {
    let pos = |c: &mut Ctx, nm: &str| {
        let x = A::input(c, nm);
        A::assume_sign(c, x, POS);
        x
    };
    let one = A::lit(1.0);
    let signed = |c: &mut Ctx, nm: &str, q: &Array2<A>| {
        for i in 0..n {
            for j in 0..n {
                if i == j {
                    A::claim_eq(c, &format!("{}[{},{}] squared", nm, i, j), q[(i, j)] * q[(i, j)], one);
                } else {
                    zero(c, &format!("{}[{},{}]", nm, i, j), q[(i, j)]);
                }
            }
        }
    };
    let mut a = Array2::from_elem((n, n), A::lit(0.0));
    match op {
        0 => {
            for i in 0..n {
                a[(i, i)] = pos(c, &format!("d{}", i));
                for j in i + 1..n {
                    a[(i, j)] = A::input(c, &format!("r{}{}", i, j));
                }
            }
            let (q, r) = a.qr().unwrap().into_decomp();
            eqk(c, "R", &r, &a, one);
            signed(c, "Q", &q);
        }
        1 => {
            for i in 0..n {
                a[(i, i)] = A::input(c, &format!("d{}", i));
                if i + 1 < n {
                    let x = pos(c, &format!("e{}", i));
                    a[(i, i + 1)] = x;
                    a[(i + 1, i)] = x;
                }
            }
            let d = a.clone().sym_tridiagonal().unwrap();
            signed(c, "Q", &d.generate_q());
            eqk(c, "T", &d.into_tridiag_matrix().to_owned(), &a, one);
        }
        2 => {
            for i in 0..n {
                a[(i, i)] = pos(c, &format!("d{}", i));
                if i + 1 < n {
                    a[(i, i + 1)] = pos(c, &format!("e{}", i));
                }
            }
            let d = a.clone().bidiagonal().unwrap();
            signed(c, "U", &d.generate_u());
            signed(c, "Vt", &d.generate_vt());
            eqk(c, "B", &d.into_b(), &a, one);
        }
        _ => {
            for i in 0..n {
                a[(i, i)] = if op == 3 { A::input(c, &format!("d{}", i)) } else { pos(c, &format!("d{}", i)) };
            }
            // every value is one of the diagonal, and together they are all of them
            let w = if op == 3 { a.eigh().map(|x| x.0).ok() } else { a.svd(true, true).map(|x| x.1).ok() };
            let w = match w {
                Some(w) => w,
                None => return c.check("succeeds", false),
            };
            c.check("count", w.len() == n);
            set_scale::<A>(c, maxabs(&a));
            let (mut p, mut q) = (w.clone(), a.diag().to_owned());
            let m = maxabs(&a);
            let mut sc = 1.0;
            for e in 1..=n {
                sc *= m;
                set_scale::<A>(c, sc);
                let sum = |x: &Array1<A>| x.iter().fold(A::lit(0.0), |t, y| t + *y);
                A::claim_eq(c, &format!("power sum {}", e), sum(&p), sum(&q));
                for i in 0..n {
                    p[i] = p[i] * w[i];
                    q[i] = q[i] * a[(i, i)];
                }
            }
            c.scale = 1.0;
        }
    }
}

pub fn jobs(t: bool) -> Vec<Job> {
    let mut v = vec![];
    let ks = [("x4", K::Two(2), 0.0), ("2m60", K::Two(-60), f64::EPSILON), ("2p40", K::Two(40), f64::EPSILON), ("any", K::Any, 0.0)];
    for (kn, k, eps) in ks {
        let d = |s: &str| format!("{}; scaled by {}", s, if kn == "any" { "every positive factor" } else { kn });
        for (r, n) in [(1, 1), (2, 1), (2, 2), (3, 1)] {
            job!(v, format!("qr-full-{}x{}-{}", r, n, kn), |c, A| {
                let a = mat::<A>(c, "a", r, n);
                qr::<A>(c, a, k)
            })
            .eps(eps)
            .desc(&d("every entry symbolic"));
        }
        for (r, n) in [(3, 2), (3, 3), (4, 3), (4, 4)] {
            for pat in 0..1u32 << n {
                if n > 2 && pat.count_ones() > 1 && !t || n == 4 && !t {
                    continue;
                }
                let w = if n > 2 { 9 } else { 0 };
                job!(v, format!("qr-fam-{}x{}-p{:b}-{}", r, n, pat, kn), |c, A| {
                    let r0 = upper_pat::<A>(c, "r", n, pat);
                    let q0 = orth::<A>(r, w).slice(s![.., ..n]).to_owned();
                    qr::<A>(c, mm(&q0, &r0), k)
                })
                .eps(eps)
                .desc(&d("A = Q0*R0, diagonal entries of the pattern zero"));
            }
            job!(v, format!("solve-{}x{}-{}", r, n, kn), |c, A| {
                let r0 = upper_some::<A>(c, "r", n, 0, |i, j| i == j || j == n - 1);
                for i in 0..n {
                    A::assume_sign(c, r0[(i, i)], crate::engine::NEG | POS);
                }
                let q0 = orth::<A>(r, 9).slice(s![.., ..n]).to_owned();
                solve::<A>(c, mm(&q0, &r0), k)
            })
            .eps(eps)
            .desc(&d("A = Q0*R0 of full rank"));
        }
        for n in 1..=4 {
            job!(v, format!("triangular-{}-{}", n, kn), |c, A| tri::<A>(c, n, k)).eps(eps).desc(&d("every entry symbolic"));
            if !matches!(k, K::Two(-60)) || n < 3 {
                let k = if let K::Two(e) = k { K::Two(e / 2) } else { k };
                job!(v, format!("cholesky-{}-{}", n, kn), |c, A| {
                    let a = symm::<A>(c, "a", n);
                    chol::<A>(c, a, k)
                })
                .eps(eps)
                .desc(&d("every entry symbolic"));
            }
            if n < 4 {
                job!(v, format!("tridiagonal-full-{}-{}", n, kn), |c, A| {
                    let a = symm::<A>(c, "a", n);
                    tridiag::<A>(c, a, k)
                })
                .eps(eps)
                .desc(&d("every entry symbolic"));
            }
        }
        for n in [3usize, 4] {
            for w in [0, 9] {
                for pat in 0..1u32 << (n - 1) {
                    if n == 4 && w == 0 {
                        continue;
                    }
                    job!(v, format!("tridiagonal-fam{}-{}-p{:b}-{}", w, n, pat, kn), |c, A| {
                        let t = c07::tridiag::<A>(c, n, pat, n);
                        let q = c07::emb::<A>(n, w);
                        tridiag::<A>(c, mm(&mm(&q, &t), &tr(&q)), k)
                    })
                    .eps(eps)
                    .desc(&d("A = Q0*T0*Q0^T, off-diagonal entries of the pattern zero"));
                }
            }
        }
        for (r, n) in [(1, 1), (2, 1), (1, 2), (2, 2), (3, 1), (1, 3)] {
            job!(v, format!("bidiagonal-full-{}x{}-{}", r, n, kn), |c, A| {
                let a = mat::<A>(c, "a", r, n);
                bidiag::<A>(c, a, k)
            })
            .eps(eps)
            .desc(&d("every entry symbolic"));
            if r * n <= 3 {
                job!(v, format!("svd-full-{}x{}-{}", r, n, kn), |c, A| {
                    let a = mat::<A>(c, "a", r, n);
                    svds::<A>(c, a, k)
                })
                .eps(eps)
                .desc(&d("every entry symbolic"));
            }
        }
        for (r, n) in [(2usize, 2usize), (3, 2), (3, 3), (4, 3)] {
            for wide in [false, true] {
                for pd in 0..1u32 << n {
                    for po in 0..1u32 << (n - 1) {
                        if n == 3 && (pd.count_ones() > 1 || wide && pd > 0) && !t || r == n && wide {
                            continue;
                        }
                        let tn = if wide { "t" } else { "" };
                        job!(v, format!("bidiagonal-fam-{}x{}{}-d{:b}-o{:b}-{}", r, n, tn, pd, po, kn), |c, A| {
                            let a = c08::member::<A>(c, r, n, 9, pd, po, wide);
                            bidiag::<A>(c, a, k)
                        })
                        .eps(eps)
                        .desc(&d("A = U0*B0*V0^T, entries of the patterns zero"));
                        // blocks of order two at most
                        if n == 3 && po == 0 && pd != 2 || n == 2 && pd == 0 && po == 0 {
                            continue;
                        }
                        job!(v, format!("svd-fam-{}x{}{}-d{:b}-o{:b}-{}", r, n, tn, pd, po, kn), |c, A| {
                            let fix = (0..n).find(|&i| pd >> i & 1 == 0);
                            let a = c10::member::<A>(c, r, n, 9, pd, po, if n == 3 { fix } else { None }, wide);
                            svds::<A>(c, a, k)
                        })
                        .secs(8)
                        .claim_ms(if t { 8000 } else { 2000 })
                        .eps(if n == 3 { 0.0 } else { eps })
                        .desc(&d("A = U0*B0*V0^T decoupling into blocks of order two"));
                    }
                }
            }
        }
        for n in 1..=2 {
            job!(v, format!("eigh-full-{}-{}", n, kn), |c, A| {
                let mut a = symm::<A>(c, "a", n);
                if n == 2 && eps > 0.0 && !t {
                    a[(0, 0)] = A::lit(1.0);
                }
                eig::<A>(c, a, k)
            })
            .eps(eps)
            .secs(if t { 200 } else { 25 })
            .desc(&d("every entry symbolic"));
        }
        for n in [3usize, 4] {
            for w in [8, 9] {
                for pat in 1..1u32 << (n - 1) {
                    if !pat & !(pat >> 1) & ((1 << (n - 2)) - 1) != 0 {
                        continue;
                    }
                    job!(v, format!("eigh-fam{}-{}-p{:b}-{}", w, n, pat, kn), |c, A| {
                        let a = c09::member::<A>(c, n, w, pat);
                        eig::<A>(c, a, k)
                    })
                    .desc(&d("blocks of order one and two"));
                }
            }
        }
    }
    for (r, n) in [(1usize, 1usize), (2, 1), (3, 1), (2, 2)] {
        job!(v, format!("transposed-full-{}x{}", r, n), |c, A| {
            let a = mat::<A>(c, "a", r, n);
            transposed::<A>(c, a)
        })
        .secs(if t { 200 } else { 20 })
        .claim_ms(if t { 8000 } else { 3000 })
        .desc("every entry symbolic; against the transpose");
    }
    for (r, n) in [(2usize, 2usize), (3, 2), (3, 3), (4, 3)] {
        for w in [8, 9] {
            for pd in 0..1u32 << n {
                for po in 0..1u32 << (n - 1) {
                    if n == 3 && po == 0 && pd != 2 {
                        continue;
                    }
                    job!(v, format!("transposed-fam{}-{}x{}-d{:b}-o{:b}", w, r, n, pd, po), |c, A| {
                        let fix = (0..n).find(|&i| pd >> i & 1 == 0);
                        let a = c10::member::<A>(c, r, n, w, pd, po, if n == 3 { fix } else { None }, false);
                        transposed::<A>(c, a)
                    })
                    .secs(8)
                        .claim_ms(if t { 8000 } else { 2000 })
                    .desc("A = U0*B0*V0^T decoupling into blocks of order two; against the transpose");
                }
            }
        }
    }
    for (o, nm) in ["qr", "tridiagonal", "bidiagonal", "eigh", "svd"].into_iter().enumerate() {
        for n in 1..=if t { 7 } else { 6 } {
            if o >= 3 && n > 4 {
                continue;
            }
            job!(v, format!("reduced-{}-{}", nm, n), |c, A| reduced::<A>(c, n, o)).desc("input of the reduced form with positive (off-)diagonal, every entry symbolic");
        }
    }
    v
}
