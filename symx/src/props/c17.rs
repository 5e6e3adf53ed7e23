use super::c14::{best, ord};
use super::c16::Script;
use super::util::*;
use crate::ctx::*;
use crate::engine::{POS, ZERO};
use crate::job;
use linfa_linalg::lobpcg::{lobpcg, TruncatedSvd};
use linfa_linalg::LinalgError;
use ndarray::prelude::*;

fn diag_rect<A: Scalar>(n: usize, m: usize, d: &[A]) -> Array2<A> {
    let mut r = Array2::from_elem((n, m), A::lit(0.0));
    for i in 0..d.len() {
        r[(i, i)] = d[i];
    }
    r
}
struct Out<A> {
    s: Array1<A>,
    u: Array2<A>,
    vt: Array2<A>,
}
/// what holds for every result: forms agree, shapes, order, orthonormal, and the triplet equations of
/// the side the vectors are derived from (both when `conv`)
fn triplets<A: Scalar>(c: &mut Ctx, a: &Array2<A>, o: &Out<A>, v2: &Array1<A>, conv: bool, largest: bool) -> bool {
    let (n, m) = a.dim();
    let k = o.s.len();
    let ok = v2.len() == k && o.u.dim() == (n, k) && o.vt.dim() == (k, m);
    c.check("shapes", ok);
    if !ok {
        return false;
    }
    set_scale::<A>(c, maxabs(a));
    for i in 0..k {
        A::claim_eq(c, &format!("values of both forms {}", i), o.s[i], v2[i]);
        nonneg(c, &format!("value {} not negative", i), o.s[i]);
        if i > 0 {
            let d = if largest { o.s[i - 1] - o.s[i] } else { o.s[i] - o.s[i - 1] };
            A::claim_sign(c, &format!("order at {}", i), d, ZERO | POS);
        }
    }
    c.scale = 1.0;
    let v = tr(&o.vt);
    orthonormal(c, "U", &o.u);
    orthonormal(c, "V", &v);
    let av = mm(a, &v);
    let atu = mm(&tr(a), &o.u);
    set_scale::<A>(c, maxabs(a));
    for j in 0..k {
        if n > m || conv {
            for i in 0..n {
                A::claim_eq(c, &format!("A*v{}[{}]", j, i), av[(i, j)], o.s[j] * o.u[(i, j)]);
            }
        }
        if n <= m || conv {
            for i in 0..m {
                A::claim_eq(c, &format!("A^T*u{}[{}]", j, i), atu[(i, j)], o.s[j] * v[(i, j)]);
            }
        }
    }
    c.scale = 1.0;
    true
}
fn run<A: Scalar>(a: &Array2<A>, k: usize, draws: &[f64], prec: f32, cap: usize, largest: bool) -> Result<(Out<A>, Array1<A>), LinalgError> {
    let r = TruncatedSvd::new_with_rng(a.clone(), ord(largest), Script::new(draws)).precision(prec).maxiter(cap).decompose(k)?;
    let v2 = r.values();
    let (u, s, vt) = r.values_vectors();
    Ok((Out { s, u, vt }, v2))
}
fn expect<A: Scalar>(c: &mut Ctx, a: &Array2<A>, k: usize, draws: &[f64], e: &[A], largest: bool) {
    match run(a, k, draws, 1e-2, 1, largest) {
        Ok((o, v2)) => {
            if !triplets(c, a, &o, &v2, true, largest) {
                return;
            }
            c.check("as many values as expected", o.s.len() == e.len());
            set_scale::<A>(c, maxabs(a));
            for i in 0..o.s.len().min(e.len()) {
                A::claim_eq(c, &format!("singular value {}", i), o.s[i], e[i]);
            }
            c.scale = 1.0;
        }
        Err(_) => c.check("result", false),
    }
}
/// ordered singular values from 1/4 to 8 with gaps of a quarter at least
fn chain<A: Scalar>(c: &mut Ctx, k: usize, largest: bool) -> Vec<A> {
    let e: Vec<A> = (0..k).map(|i| A::input(c, &format!("s{}", i))).collect();
    for i in 0..k {
        A::assume_sign(c, e[i] - A::frac(1, 4), ZERO | POS);
        A::assume_sign(c, A::lit(8.0) - e[i], ZERO | POS);
        if i > 0 {
            let g = if largest { e[i - 1] - e[i] } else { e[i] - e[i - 1] };
            A::assume_sign(c, g - A::frac(1, 4), ZERO | POS);
        }
    }
    e
}
/// A = U0 diag(s) V0^T with fixed orthogonal factors, smaller side two
fn pair<A: Scalar>(c: &mut Ctx, n: usize, m: usize, w: usize, k: usize, largest: bool) {
    let e = chain::<A>(c, 2, largest);
    let a = mm(&mm(&orth(n, w), &diag_rect(n, m, &e)), &tr(&orth(m, w)));
    let draws = [0.5, 0.25, 0.125, 0.75];
    expect(c, &a, k, &draws, &e[..k], largest);
}
/// permuted diagonal problem, all singular values symbolic with signs; the start holds the wanted axes
/// each mixed with one other. `nulls` further singular values are zero.
fn axes<A: Scalar>(c: &mut Ctx, n: usize, m: usize, k: usize, nulls: usize, largest: bool) {
    let q = n.min(m);
    let e = chain::<A>(c, q - nulls, largest);
    let mut a = Array2::from_elem((n, m), A::lit(0.0));
    // row i of the smaller side meets one place of the larger side
    let big = n.max(m);
    let at = |i: usize| (i * 2 + 1) % (big | 1) % big;
    let mut used = vec![false; big];
    let mut place = vec![0; q];
    for i in 0..q {
        let mut p = at(i);
        while used[p] {
            p = (p + 1) % big;
        }
        used[p] = true;
        place[i] = p;
    }
    // which small axis carries which value
    let perm: Vec<usize> = (0..q).map(|i| (i + 1) % q).collect();
    for i in 0..e.len() {
        let x = if i % 2 == 0 { e[i] } else { A::lit(0.0) - e[i] };
        let s = perm[i];
        if n <= m {
            a[(s, place[s])] = x;
        } else {
            a[(place[s], s)] = x;
        }
    }
    let mut x = vec![0.0; q * k];
    for j in 0..k {
        x[perm[j] * k + j] = 0.5;
        if k + j < q {
            x[perm[k + j] * k + j] = 0.25;
        }
    }
    // coinciding Ritz values of the start are left out
    let sq: Vec<A> = (0..q).map(|i| if i < e.len() { e[i] * e[i] } else { A::lit(0.0) }).collect();
    let ritz: Vec<A> = (0..k).map(|i| if i + k < q { sq[i] * A::frac(4, 5) + sq[i + k] * A::frac(1, 5) } else { sq[i] }).collect();
    for i in 0..k {
        for j in 0..i {
            if i >= e.len() && j >= e.len() {
                continue;
            }
            let d = ritz[i] - ritz[j];
            A::assume_sign(c, d * d - A::frac(1, 100), ZERO | POS);
        }
    }
    expect(c, &a, k, &x, &e[..k.min(e.len())], largest);
}
/// any entries; not converged
fn capped<A: Scalar>(c: &mut Ctx, n: usize, m: usize, k: usize, free: u32, cap: usize, largest: bool) {
    let f: Array2<A> = fixed(n, m, 23);
    let mut a = f.clone();
    for i in 0..n {
        for j in 0..m {
            if free >> (i * m + j) & 1 == 1 {
                let x = A::input(c, &format!("a{}{}", i, j));
                A::assume_sign(c, A::lit(100.0) - x, ZERO | POS);
                A::assume_sign(c, A::lit(100.0) + x, ZERO | POS);
                a[(i, j)] = x;
            }
        }
    }
    let draws = [0.5, 0.25, 0.125, 0.75, 0.625, 0.375];
    if cap > 0 && !largest {
        // null values are the null-* jobs
        let g = if n > m { mm(&tr(&a), &a) } else { mm(&a, &tr(&a)) };
        A::assume_sign(c, det(&g) - A::frac(1, 10), POS);
    }
    if !A::SYM {
        // next to a null value the relative size decides what is dropped
        let q = n.min(m);
        let x = Array2::from_shape_fn((q, k), |(i, j)| A::lit(draws[i * k + j]));
        let y = if n > m { mm(&a, &x) } else { mm(&tr(&a), &x) };
        let g = mm(&tr(&y), &y);
        if det(&g).approx().abs() < 1e-6 * maxabs(&g).powi(k as i32) && maxabs(&g) > 0.0 {
            return;
        }
        if !largest && maxabs(&g) == 0.0 {
            return;
        }
    }
    let got = match run(&a, k, &draws, 0.5, cap, largest) {
        Ok(x) => x,
        Err(_) => {
            c.check("result", false);
            return;
        }
    };
    let (o, v2) = got;
    if !triplets(c, &a, &o, &v2, false, largest) {
        return;
    }
    // the squared problem with the squared precision
    let q = n.min(m);
    let x = Array2::from_shape_fn((q, k), |(i, j)| A::lit(draws[i * k + j]));
    let at = tr(&a);
    let d = lobpcg(
        |v| if n > m { mm(&at, &mm(&a, &v.to_owned())) } else { mm(&a, &mm(&at, &v.to_owned())) },
        x,
        |_| {},
        None,
        0.25,
        cap,
        ord(largest),
    );
    match best(&d) {
        Some(b) => {
            set_scale::<A>(c, maxabs(&a).powi(2));
            // what is missing is null
            for i in 0..k {
                let s = if i < o.s.len() { o.s[i] * o.s[i] } else { A::lit(0.0) };
                A::claim_eq(c, &format!("squared value {}", i), s, b.eigvals[i]);
            }
            c.scale = 1.0;
        }
        None => c.check("squared problem has a result", false),
    }
}
fn empty<A: Scalar>(c: &mut Ctx, n: usize, m: usize, largest: bool) {
    let a: Array2<A> = mat(c, "a", n, m);
    match run(&a, 0, &[], 1e-3, 3, largest) {
        Ok((o, v2)) => c.check("empty", o.s.is_empty() && v2.is_empty() && o.u.is_empty() && o.vt.is_empty()),
        Err(_) => c.check("no values is no error", false),
    }
}
fn too_many<A: Scalar>(c: &mut Ctx, largest: bool) {
    for n in 1..4 {
        for m in 1..4 {
            let a: Array2<A> = fixed(n, m, 3);
            let q = n.min(m);
            for k in q + 1..q + 3 {
                let r = run(&a, k, &[0.5, 0.25, 0.125, 0.75], 1e-3, 3, largest);
                c.check(&format!("{} values of {}x{}", k, n, m), matches!(r, Err(LinalgError::NotThin { rows, cols }) if rows == q && cols == k));
            }
        }
    }
}
/// the zero matrix and null values in the smallest mode
fn null_smallest<A: Scalar>(c: &mut Ctx, n: usize, m: usize) {
    let e = chain::<A>(c, 1, true);
    let d = [e[0], A::lit(0.0)];
    let a = mm(&mm(&orth(n, 0), &diag_rect(n, m, &d)), &tr(&orth(m, 8)));
    let r = TruncatedSvd::new_with_rng(a.clone(), ord(false), Script::new(&[0.5, 0.25, 0.125, 0.75])).precision(1e-2).maxiter(1).decompose(2);
    match r {
        Ok(r) => {
            let s = r.values();
            c.check("two values", s.len() == 2);
            if s.len() == 2 {
                set_scale::<A>(c, maxabs(&a));
                A::claim_eq(c, "larger", s[1], e[0]);
                // natively the square root of rounding noise
                A::claim_eq(c, "null squared", s[0] * s[0], A::lit(0.0));
                c.scale = 1.0;
            }
        }
        Err(_) => c.check("result", false),
    }
}
/// rank one, all values asked for, smallest first
fn rank_one<A: Scalar>(c: &mut Ctx, u: [i64; 3]) {
    let s = A::input(c, "s");
    A::assume_sign(c, s - A::lit(1.0), ZERO | POS);
    A::assume_sign(c, A::lit(2.0) - s, ZERO | POS);
    let w = [1i64, 2, 4];
    let a = Array2::from_shape_fn((3, 3), |(i, j)| s * A::frac(u[i] * w[j], 7));
    let draws = [0.5, 0.25, 0.125, 0.75, 0.625, 0.0, 0.875, 0.375, 0.25];
    match TruncatedSvd::new_with_rng(a.clone(), ord(false), Script::new(&draws)).precision(1e-2).maxiter(1).decompose(3) {
        Ok(r) => {
            let v = r.values();
            c.check("three values", v.len() == 3);
            if v.len() == 3 {
                set_scale::<A>(c, maxabs(&a).powi(2));
                let f = A::frac(21 * (u[0] * u[0] + u[1] * u[1] + u[2] * u[2]), 49);
                A::claim_eq(c, "largest squared", v[2] * v[2], s * s * f);
                zero(c, "null squared", v[0] * v[0]);
                zero(c, "second null squared", v[1] * v[1]);
                c.scale = 1.0;
            }
        }
        Err(_) => c.check("result", false),
    }
}
/// converged from the start: values below the relative cutoff are dropped, those above kept
fn cutoff<A: Scalar>(c: &mut Ctx, n: usize, m: usize, keep: usize, drop: usize) {
    // the cutoff is 1e6 * epsilon relative to the largest squared value; epsilon is 2^-30 symbolically
    let (r, t) = if A::SYM { (0.5f64.powi(4), 0.5f64.powi(6)) } else { (0.5f64.powi(15), 0.5f64.powi(18)) };
    let e = A::input(c, "s");
    A::assume_sign(c, e - A::frac(1, 16), ZERO | POS);
    A::assume_sign(c, A::lit(16.0) - e, ZERO | POS);
    let q = n.min(m);
    let mut d = vec![e];
    for i in 0..keep {
        d.push(e * A::lit(r * (2.0 - i as f64 / 2.0)));
    }
    for i in 0..drop {
        d.push(e * A::lit(t / (1.0 + i as f64)));
    }
    let mut a = Array2::from_elem((n, m), A::lit(0.0));
    let mut draws = vec![0.0; q * d.len()];
    for (i, x) in d.iter().enumerate() {
        let p = (i + 1) % q;
        a[(p, p)] = *x;
        draws[p * d.len() + i] = 0.5;
    }
    match run(&a, d.len(), &draws, 1e-2, 1, true) {
        Ok((o, v2)) => {
            c.check("values above the cutoff are kept", o.s.len() >= keep + 1);
            c.check("values below the cutoff are dropped", o.s.len() <= keep + 1);
            c.check("forms agree", v2.len() == o.s.len() && o.u.dim() == (n, o.s.len()) && o.vt.dim() == (o.s.len(), m));
            for i in 0..o.s.len().min(keep + 1) {
                A::claim_eq(c, &format!("relative value {}", i), o.s[i] / d[i], A::lit(1.0));
            }
        }
        Err(_) => c.check("result", false),
    }
}
fn null_vectors<A: Scalar>(c: &mut Ctx, n: usize, m: usize) {
    let e = chain::<A>(c, 1, true);
    let a = diag_rect(n, m, &[e[0], A::lit(0.0)]);
    match run(&a, 2, &[1.0 / 2.0, 0.0, 0.0, 0.25], 1e-2, 1, false) {
        Ok((o, v2)) => {
            triplets(c, &a, &o, &v2, true, false);
        }
        Err(_) => c.check("result", false),
    }
}

pub fn jobs(t: bool) -> Vec<Job> {
    let mut v = vec![];
    for lg in [true, false] {
        let o = if lg { "max" } else { "min" };
        for (n, m) in [(2, 2), (3, 2), (2, 3), (4, 2), (2, 4)] {
            for w in [0, 1] {
                for k in 1..3 {
                    job!(v, format!("pair-{}-{}x{}-k{}-q{}", o, n, m, k, w), |c, A| pair::<A>(c, n, m, w, k, lg)).desc("dense, both singular values symbolic, orthogonal factors fixed");
                }
            }
        }
        for (n, m) in [(1, 1), (1, 3), (3, 1), (2, 2), (3, 3), (3, 4), (4, 3), (4, 4), (5, 4), (4, 6), (5, 5), (6, 7), (8, 6)] {
            for k in 1..=n.min(m) {
                for nulls in 0..if lg { 3.min(n.min(m)) } else { 1 } {
                    if n.min(m) > 5 && (k != 2 && (!t || k != 3) || nulls > 1) {
                        continue;
                    }
                    if n.min(m) == 5 && !t && k > 2 {
                        continue;
                    }
                    job!(v, format!("axes-{}-{}x{}-k{}-z{}", o, n, m, k, nulls), |c, A| axes::<A>(c, n, m, k, nulls, lg)).desc("one signed entry per line, all values symbolic, z of them null");
                }
            }
        }
        for (n, m, k, free) in [(2, 1, 1, 3u32), (1, 2, 1, 3), (3, 1, 1, 7), (1, 3, 1, 7), (1, 1, 1, 1), (2, 2, 1, 15), (2, 2, 1, 0b1001), (2, 2, 1, 0b0010), (2, 3, 1, 0b111111), (3, 2, 1, 0b111111), (2, 2, 2, 0b1001), (3, 2, 2, 0b1), (2, 3, 2, 0b100), (3, 3, 1, if t { 1 } else { 0 })] {
            for cap in 0..2 {
                if cap == 1 && (n.min(m) == 1 || free.count_ones() > 2 || k == 2) {
                    continue;
                }
                job!(v, format!("capped-{}-{}x{}-k{}-{:b}-cap{}", o, n, m, k, free, cap), |c, A| capped::<A>(c, n, m, k, free, cap, lg)).desc("flagged entries symbolic, results of capped runs");
            }
        }
        for (n, m) in [(0, 0), (1, 1), (2, 3), (3, 2)] {
            job!(v, format!("empty-{}-{}x{}", o, n, m), |c, A| empty::<A>(c, n, m, lg)).desc("no value requested");
        }
        job!(v, format!("too-many-{}", o), |c, A| too_many::<A>(c, lg)).desc("more values than the smaller side");
    }
    for (n, m) in [(2, 2), (3, 3), (4, 3), (3, 4), (4, 4)] {
        for keep in 0..3 {
            for drop in 0..3 {
                if keep + drop + 1 > n.min(m) {
                    continue;
                }
                job!(v, format!("cutoff-{}x{}-{}-{}", n, m, keep, drop), |c, A| cutoff::<A>(c, n, m, keep, drop)).eps(0.5f64.powi(30)).desc("largest value symbolic, others in fixed ratio to it, around the relative cutoff; exact start");
            }
        }
    }
    for (n, m) in [(2, 2), (3, 2), (2, 3)] {
        job!(v, format!("null-values-{}x{}", n, m), |c, A| null_smallest::<A>(c, n, m)).desc("smallest values of a rank-one problem");
        if (n, m) == (2, 2) {
            for u in [[1, 3, 2], [1, 2, 4], [1, 4, 1], [1, 3, 5]] {
                job!(v, format!("null-rank1-{}{}{}", u[0], u[1], u[2]), |c, A| rank_one::<A>(c, u)).desc("3x3 rank one with symbolic scale");
            }
        }
        job!(v, format!("null-vectors-{}x{}", n, m), |c, A| null_vectors::<A>(c, n, m)).desc("vectors of a null smallest value");
    }
    v
}
