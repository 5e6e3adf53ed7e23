//! Sparse multivariate polynomials over the rationals, lexicographic order with the highest
//! variable index most significant.
use crate::rat::{Int, Q};
use std::collections::BTreeMap;

pub type Var = u32;
/// (variable, exponent), variables strictly descending
pub type Mono = Vec<(Var, u32)>;

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct Poly {
    pub t: BTreeMap<Mono, Q>,
}

pub fn mono_mul(a: &Mono, b: &Mono) -> Mono {
    if a.is_empty() {
        return b.clone();
    }
    if b.is_empty() {
        return a.clone();
    }
    let mut r = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() && j < b.len() {
        if a[i].0 == b[j].0 {
            r.push((a[i].0, a[i].1 + b[j].1));
            i += 1;
            j += 1;
        } else if a[i].0 > b[j].0 {
            r.push(a[i]);
            i += 1;
        } else {
            r.push(b[j]);
            j += 1;
        }
    }
    r.extend_from_slice(&a[i..]);
    r.extend_from_slice(&b[j..]);
    r
}
pub fn mono_div(a: &Mono, b: &Mono) -> Option<Mono> {
    let mut r = Vec::with_capacity(a.len());
    let mut j = 0;
    for &(v, e) in a {
        if j < b.len() && b[j].0 > v {
            return None;
        }
        if j < b.len() && b[j].0 == v {
            if e < b[j].1 {
                return None;
            }
            if e > b[j].1 {
                r.push((v, e - b[j].1));
            }
            j += 1;
        } else {
            r.push((v, e));
        }
    }
    if j < b.len() {
        None
    } else {
        Some(r)
    }
}

impl Poly {
    pub fn zero() -> Poly {
        Poly::default()
    }
    pub fn cst(q: Q) -> Poly {
        let mut t = BTreeMap::new();
        if !q.is_zero() {
            t.insert(vec![], q);
        }
        Poly { t }
    }
    pub fn one() -> Poly {
        Poly::cst(Q::one())
    }
    pub fn var(v: Var) -> Poly {
        let mut t = BTreeMap::new();
        t.insert(vec![(v, 1)], Q::one());
        Poly { t }
    }
    pub fn is_zero(&self) -> bool {
        self.t.is_empty()
    }
    pub fn as_cst(&self) -> Option<Q> {
        if self.t.is_empty() {
            return Some(Q::zero());
        }
        if self.t.len() == 1 {
            let (m, q) = self.t.iter().next().unwrap();
            if m.is_empty() {
                return Some(q.clone());
            }
        }
        None
    }
    pub fn as_var(&self) -> Option<Var> {
        if self.t.len() == 1 {
            let (m, q) = self.t.iter().next().unwrap();
            if m.len() == 1 && m[0].1 == 1 && q.is_one() {
                return Some(m[0].0);
            }
        }
        None
    }
    pub fn len(&self) -> usize {
        self.t.len()
    }
    pub fn lead(&self) -> (&Mono, &Q) {
        self.t.iter().next_back().unwrap()
    }
    pub fn add_term(&mut self, m: Mono, q: Q) {
        if q.is_zero() {
            return;
        }
        use std::collections::btree_map::Entry;
        match self.t.entry(m) {
            Entry::Vacant(e) => {
                e.insert(q);
            }
            Entry::Occupied(mut e) => {
                let s = e.get().add(&q);
                if s.is_zero() {
                    e.remove();
                } else {
                    *e.get_mut() = s;
                }
            }
        }
    }
    pub fn add(&self, o: &Poly) -> Poly {
        let (mut a, b) = if self.len() >= o.len() { (self.clone(), o) } else { (o.clone(), self) };
        for (m, q) in &b.t {
            a.add_term(m.clone(), q.clone());
        }
        a
    }
    pub fn neg(&self) -> Poly {
        Poly { t: self.t.iter().map(|(m, q)| (m.clone(), q.neg())).collect() }
    }
    pub fn sub(&self, o: &Poly) -> Poly {
        self.add(&o.neg())
    }
    pub fn scale(&self, k: &Q) -> Poly {
        if k.is_zero() {
            return Poly::zero();
        }
        if k.is_one() {
            return self.clone();
        }
        Poly { t: self.t.iter().map(|(m, q)| (m.clone(), q.mul(k))).collect() }
    }
    pub fn mul_mono(&self, mm: &Mono, k: &Q) -> Poly {
        Poly { t: self.t.iter().map(|(m, q)| (mono_mul(m, mm), q.mul(k))).collect() }
    }
    /// plain product, without tower reduction
    pub fn mul_raw(&self, o: &Poly) -> Poly {
        if let Some(c) = self.as_cst() {
            return o.scale(&c);
        }
        if let Some(c) = o.as_cst() {
            return self.scale(&c);
        }
        let mut r = Poly::zero();
        for (k, (m, q)) in self.t.iter().enumerate() {
            if k % 64 == 0 {
                crate::mem::guard();
            }
            for (m2, q2) in &o.t {
                r.add_term(mono_mul(m, m2), q.mul(q2));
            }
        }
        r
    }
    /// exact division as free polynomials
    pub fn div_exact(&self, d: &Poly) -> Option<Poly> {
        if let Some(c) = d.as_cst() {
            return if c.is_zero() { None } else { Some(self.scale(&c.inv())) };
        }
        if self.is_zero() {
            return Some(Poly::zero());
        }
        if d.len() == 1 {
            let (dm, dq) = d.lead();
            let k = dq.inv();
            let mut r = Poly::zero();
            for (m, q) in &self.t {
                r.t.insert(mono_div(m, dm)?, q.mul(&k));
            }
            return Some(r);
        }
        if self.len() < 2 {
            return None;
        }
        let (dm, dq) = d.lead();
        // the trailing terms must divide too: a cheap refutation
        let (tm, _) = self.t.iter().next().unwrap();
        let (dtm, _) = d.t.iter().next().unwrap();
        mono_div(tm, dtm)?;
        let k = dq.inv();
        let mut rem = self.clone();
        let mut quo = Poly::zero();
        let mut steps = 0;
        while !rem.is_zero() {
            steps += 1;
            if steps > 3000 {
                return None;
            }
            let (rm, rq) = rem.lead();
            let m = mono_div(rm, dm)?;
            let c = rq.mul(&k);
            for (m2, q2) in &d.t {
                rem.add_term(mono_mul(&m, m2), q2.mul(&c).neg());
            }
            quo.t.insert(m, c);
        }
        Some(quo)
    }
    /// (rational content with the sign of the leading term, primitive part)
    pub fn content(&self) -> (Q, Poly) {
        if self.is_zero() {
            return (Q::zero(), Poly::zero());
        }
        let mut n = Int::zero();
        let mut d = Int::one();
        for q in self.t.values() {
            n = n.gcd(&q.n);
            let g = d.gcd(&q.d);
            d = d.mul(&q.d.divrem(&g).0);
        }
        let mut c = Q::new(n, d);
        if self.lead().1.sign() < 0 {
            c = c.neg();
        }
        let p = self.scale(&c.inv());
        (c, p)
    }
    /// (largest monomial dividing every term, the rest)
    pub fn mono_content(&self) -> (Mono, Poly) {
        if self.is_zero() {
            return (vec![], Poly::zero());
        }
        let mut it = self.t.keys();
        let mut g: Mono = it.next().unwrap().clone();
        for m in it {
            if g.is_empty() {
                break;
            }
            let mut r = vec![];
            for &(v, e) in &g {
                if let Some(&(_, e2)) = m.iter().find(|x| x.0 == v) {
                    r.push((v, e.min(e2)));
                }
            }
            g = r;
        }
        if g.is_empty() {
            return (g, self.clone());
        }
        let p = Poly {
            t: self.t.iter().map(|(m, q)| (mono_div(m, &g).unwrap(), q.clone())).collect(),
        };
        (g, p)
    }
    /// g with g*g == self, as free polynomials, leading coefficient positive
    pub fn sqrt_exact(&self) -> Option<Poly> {
        if self.is_zero() {
            return Some(Poly::zero());
        }
        let (lm, lq) = self.lead();
        let root_m = |m: &Mono| -> Option<Mono> {
            m.iter().map(|&(v, e)| if e % 2 == 0 { Some((v, e / 2)) } else { None }).collect()
        };
        let gm = root_m(lm)?;
        let gq = sqrt_q_exact(lq)?;
        let (tm, tq) = self.t.iter().next().unwrap();
        root_m(tm)?;
        sqrt_q_exact(tq)?;
        let mut g = Poly::zero();
        g.t.insert(gm.clone(), gq.clone());
        let k = gq.mul(&Q::int(2)).inv();
        let mut rem = self.clone();
        // subtract lead^2
        rem.add_term(lm.clone(), lq.neg());
        let mut steps = 0;
        while !rem.is_zero() {
            steps += 1;
            if steps > 400 || g.len() > self.len() {
                return None;
            }
            let (rm, rq) = rem.lead();
            let m = mono_div(rm, &gm)?;
            let c = rq.mul(&k);
            // rem -= 2*g*t + t^2
            let two = Q::int(2);
            let add: Vec<(Mono, Q)> =
                g.t.iter().map(|(m2, q2)| (mono_mul(m2, &m), q2.mul(&c).mul(&two).neg())).collect();
            for (mm, qq) in add {
                rem.add_term(mm, qq);
            }
            rem.add_term(mono_mul(&m, &m), c.mul(&c).neg());
            if g.t.contains_key(&m) {
                return None;
            }
            g.t.insert(m, c);
        }
        Some(g)
    }
    pub fn vars(&self, out: &mut std::collections::BTreeSet<Var>) {
        for m in self.t.keys() {
            for &(v, _) in m {
                out.insert(v);
            }
        }
    }
    pub fn degree_in(&self, v: Var) -> u32 {
        self.t
            .keys()
            .map(|m| m.iter().find(|x| x.0 == v).map(|x| x.1).unwrap_or(0))
            .max()
            .unwrap_or(0)
    }
    pub fn smt(&self, name: &dyn Fn(Var) -> String) -> String {
        if self.is_zero() {
            return "0.0".into();
        }
        let mut terms = vec![];
        for (m, q) in self.t.iter().rev() {
            let mut f = vec![];
            if !q.is_one() || m.is_empty() {
                f.push(q.smt());
            }
            for &(v, e) in m {
                for _ in 0..e {
                    f.push(name(v));
                }
            }
            terms.push(if f.len() == 1 { f.pop().unwrap() } else { format!("(* {})", f.join(" ")) });
        }
        if terms.len() == 1 {
            terms.pop().unwrap()
        } else {
            format!("(+ {})", terms.join(" "))
        }
    }
}

pub fn sqrt_q_exact(q: &Q) -> Option<Q> {
    if q.sign() < 0 {
        return None;
    }
    let n = q.n.isqrt();
    let d = q.d.isqrt();
    if n.mul(&n) == q.n && d.mul(&d) == q.d {
        Some(Q { n, d })
    } else {
        None
    }
}

/// q = k^2 * m with m a positive integer free of small squares
pub fn square_part(q: &Q) -> (Q, Q) {
    let n = q.n.mul(&q.d); // sqrt(n/d) = sqrt(n*d)/d
    let mut k = Int::one();
    let mut m = n;
    for p in 2..200i128 {
        let p2 = Int::of(p * p);
        loop {
            let (qq, r) = m.divrem(&p2);
            if r.is_zero() && !qq.is_zero() {
                m = qq;
                k = k.mul(&Int::of(p));
            } else {
                break;
            }
        }
    }
    let r = m.isqrt();
    if r.mul(&r) == m {
        k = k.mul(&r);
        m = Int::one();
    }
    (Q::new(k, q.d.clone()), Q { n: m, d: Int::one() })
}
