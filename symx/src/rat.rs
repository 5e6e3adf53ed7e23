//! Exact integers and rationals (i128 fast path, schoolbook big integers behind it).
use std::cmp::Ordering;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct Big {
    neg: bool,
    mag: Vec<u32>, // little endian, no trailing zeros, empty = 0
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
enum Rep {
    S(i128),
    B(Big),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Int(Rep);

fn trim(v: &mut Vec<u32>) {
    while let Some(0) = v.last() {
        v.pop();
    }
}
fn cmp_mag(a: &[u32], b: &[u32]) -> Ordering {
    if a.len() != b.len() {
        return a.len().cmp(&b.len());
    }
    for i in (0..a.len()).rev() {
        if a[i] != b[i] {
            return a[i].cmp(&b[i]);
        }
    }
    Ordering::Equal
}
fn add_mag(a: &[u32], b: &[u32]) -> Vec<u32> {
    let n = a.len().max(b.len());
    let mut r = Vec::with_capacity(n + 1);
    let mut c = 0u64;
    for i in 0..n {
        let s = c + *a.get(i).unwrap_or(&0) as u64 + *b.get(i).unwrap_or(&0) as u64;
        r.push(s as u32);
        c = s >> 32;
    }
    if c > 0 {
        r.push(c as u32);
    }
    r
}
fn sub_mag(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut r = Vec::with_capacity(a.len());
    let mut br = 0i64;
    for i in 0..a.len() {
        let mut d = a[i] as i64 - *b.get(i).unwrap_or(&0) as i64 - br;
        if d < 0 {
            d += 1 << 32;
            br = 1;
        } else {
            br = 0;
        }
        r.push(d as u32);
    }
    trim(&mut r);
    r
}
fn mul_mag(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut r = vec![0u32; a.len() + b.len()];
    for i in 0..a.len() {
        let mut c = 0u64;
        for j in 0..b.len() {
            let t = a[i] as u64 * b[j] as u64 + r[i + j] as u64 + c;
            r[i + j] = t as u32;
            c = t >> 32;
        }
        let mut k = i + b.len();
        while c > 0 {
            let t = r[k] as u64 + c;
            r[k] = t as u32;
            c = t >> 32;
            k += 1;
        }
    }
    trim(&mut r);
    r
}
fn divrem_mag(a: &[u32], b: &[u32]) -> (Vec<u32>, Vec<u32>) {
    assert!(!b.is_empty());
    if cmp_mag(a, b) == Ordering::Less {
        return (vec![], a.to_vec());
    }
    if b.len() == 1 {
        let d = b[0] as u64;
        let mut q = vec![0u32; a.len()];
        let mut r = 0u64;
        for i in (0..a.len()).rev() {
            let cur = (r << 32) | a[i] as u64;
            q[i] = (cur / d) as u32;
            r = cur % d;
        }
        trim(&mut q);
        let mut rv = vec![r as u32];
        trim(&mut rv);
        return (q, rv);
    }
    // Knuth D
    let s = b[b.len() - 1].leading_zeros();
    let shl = |v: &[u32], s: u32, extra: bool| -> Vec<u32> {
        let mut r = Vec::with_capacity(v.len() + 1);
        let mut c = 0u64;
        for &x in v {
            let t = ((x as u64) << s) | c;
            r.push(t as u32);
            c = t >> 32;
        }
        if extra || c > 0 {
            r.push(c as u32);
        }
        r
    };
    let v = shl(b, s, false);
    let mut u = shl(a, s, true);
    let n = v.len();
    let m = u.len() - n - 1;
    let mut q = vec![0u32; m + 1];
    for j in (0..=m).rev() {
        let num = ((u[j + n] as u64) << 32) | u[j + n - 1] as u64;
        let mut qh = num / v[n - 1] as u64;
        let mut rh = num % v[n - 1] as u64;
        while qh >= 1 << 32 || qh * v[n - 2] as u64 > ((rh << 32) | u[j + n - 2] as u64) {
            qh -= 1;
            rh += v[n - 1] as u64;
            if rh >= 1 << 32 {
                break;
            }
        }
        let mut borrow = 0i64;
        let mut carry = 0u64;
        for i in 0..n {
            let p = qh * v[i] as u64 + carry;
            carry = p >> 32;
            let t = u[i + j] as i64 - borrow - (p & 0xffff_ffff) as i64;
            if t < 0 {
                u[i + j] = (t + (1i64 << 32)) as u32;
                borrow = 1;
            } else {
                u[i + j] = t as u32;
                borrow = 0;
            }
        }
        let t = u[j + n] as i64 - borrow - carry as i64;
        if t < 0 {
            u[j + n] = (t + (1i64 << 32)) as u32;
            qh -= 1;
            let mut c = 0u64;
            for i in 0..n {
                let t = u[i + j] as u64 + v[i] as u64 + c;
                u[i + j] = t as u32;
                c = t >> 32;
            }
            u[j + n] = (u[j + n] as u64 + c) as u32;
        } else {
            u[j + n] = t as u32;
        }
        q[j] = qh as u32;
    }
    trim(&mut q);
    // shift the remainder back
    let mut r: Vec<u32> = u[..n].to_vec();
    if s > 0 {
        for i in 0..n {
            let hi = if i + 1 < n { r[i + 1] } else { 0 };
            r[i] = (r[i] >> s) | (((hi as u64) << (32 - s)) as u32);
        }
    }
    trim(&mut r);
    (q, r)
}

impl Int {
    pub fn of(x: i128) -> Int {
        Int(Rep::S(x))
    }
    pub fn zero() -> Int {
        Int::of(0)
    }
    pub fn one() -> Int {
        Int::of(1)
    }
    fn big(&self) -> Big {
        match &self.0 {
            Rep::B(b) => b.clone(),
            Rep::S(x) => {
                let mut m = x.unsigned_abs();
                let mut mag = vec![];
                while m > 0 {
                    mag.push(m as u32);
                    m >>= 32;
                }
                Big { neg: *x < 0, mag }
            }
        }
    }
    fn from_big(b: Big) -> Int {
        if b.mag.len() <= 4 {
            let mut v = 0u128;
            for (i, x) in b.mag.iter().enumerate() {
                v |= (*x as u128) << (32 * i);
            }
            if v <= i128::MAX as u128 {
                let s = v as i128;
                return Int(Rep::S(if b.neg { -s } else { s }));
            }
        }
        Int(Rep::B(b))
    }
    pub fn is_zero(&self) -> bool {
        matches!(self.0, Rep::S(0))
    }
    pub fn is_one(&self) -> bool {
        matches!(self.0, Rep::S(1))
    }
    pub fn is_neg(&self) -> bool {
        match &self.0 {
            Rep::S(x) => *x < 0,
            Rep::B(b) => b.neg,
        }
    }
    pub fn neg(&self) -> Int {
        match &self.0 {
            Rep::S(x) if *x != i128::MIN => Int::of(-x),
            _ => {
                let mut b = self.big();
                b.neg = !b.neg;
                Int::from_big(b)
            }
        }
    }
    pub fn abs(&self) -> Int {
        if self.is_neg() {
            self.neg()
        } else {
            self.clone()
        }
    }
    pub fn add(&self, o: &Int) -> Int {
        if let (Rep::S(a), Rep::S(b)) = (&self.0, &o.0) {
            if let Some(c) = a.checked_add(*b) {
                return Int::of(c);
            }
        }
        let (a, b) = (self.big(), o.big());
        let r = if a.neg == b.neg {
            Big { neg: a.neg, mag: add_mag(&a.mag, &b.mag) }
        } else {
            match cmp_mag(&a.mag, &b.mag) {
                Ordering::Equal => Big { neg: false, mag: vec![] },
                Ordering::Greater => Big { neg: a.neg, mag: sub_mag(&a.mag, &b.mag) },
                Ordering::Less => Big { neg: b.neg, mag: sub_mag(&b.mag, &a.mag) },
            }
        };
        Int::from_big(r)
    }
    pub fn sub(&self, o: &Int) -> Int {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Int) -> Int {
        if let (Rep::S(a), Rep::S(b)) = (&self.0, &o.0) {
            if let Some(c) = a.checked_mul(*b) {
                return Int::of(c);
            }
        }
        let (a, b) = (self.big(), o.big());
        Int::from_big(Big { neg: a.neg != b.neg, mag: mul_mag(&a.mag, &b.mag) })
    }
    /// truncated division
    pub fn divrem(&self, o: &Int) -> (Int, Int) {
        if let (Rep::S(a), Rep::S(b)) = (&self.0, &o.0) {
            if *a != i128::MIN {
                return (Int::of(a / b), Int::of(a % b));
            }
        }
        let (a, b) = (self.big(), o.big());
        let (q, r) = divrem_mag(&a.mag, &b.mag);
        (
            Int::from_big(Big { neg: a.neg != b.neg, mag: q }),
            Int::from_big(Big { neg: a.neg, mag: r }),
        )
    }
    pub fn gcd(&self, o: &Int) -> Int {
        let (mut a, mut b) = (self.abs(), o.abs());
        loop {
            if let (Rep::S(x), Rep::S(y)) = (&a.0, &b.0) {
                let (mut x, mut y) = (*x, *y);
                while y != 0 {
                    if let (Ok(p), Ok(q)) = (u64::try_from(x), u64::try_from(y)) {
                        let (mut p, mut q) = (p, q);
                        while q != 0 {
                            let t = p % q;
                            p = q;
                            q = t;
                        }
                        return Int::of(p as i128);
                    }
                    let t = x % y;
                    x = y;
                    y = t;
                }
                return Int::of(x);
            }
            if b.is_zero() {
                return a;
            }
            let r = a.divrem(&b).1;
            a = b;
            b = r;
        }
    }
    pub fn cmp(&self, o: &Int) -> Ordering {
        if let (Rep::S(a), Rep::S(b)) = (&self.0, &o.0) {
            return a.cmp(b);
        }
        let d = self.sub(o);
        if d.is_zero() {
            Ordering::Equal
        } else if d.is_neg() {
            Ordering::Less
        } else {
            Ordering::Greater
        }
    }
    pub fn small(&self) -> Option<i128> {
        match &self.0 {
            Rep::S(x) => Some(*x),
            _ => None,
        }
    }
    pub fn bits(&self) -> usize {
        let b = self.big();
        match b.mag.last() {
            None => 0,
            Some(t) => b.mag.len() * 32 - t.leading_zeros() as usize,
        }
    }
    /// floor sqrt of a non-negative integer
    pub fn isqrt(&self) -> Int {
        if self.is_zero() {
            return Int::zero();
        }
        let mut x = Int::one();
        let mut i = 0;
        while i < self.bits() / 2 + 1 {
            x = x.add(&x);
            i += 1;
        }
        loop {
            let y = x.add(&self.divrem(&x).0).divrem(&Int::of(2)).0;
            if y.cmp(&x) != Ordering::Less {
                return x;
            }
            x = y;
        }
    }
    pub fn to_f64(&self) -> f64 {
        match &self.0 {
            Rep::S(x) => *x as f64,
            Rep::B(b) => {
                let mut v = 0f64;
                for x in b.mag.iter().rev() {
                    v = v * 4294967296.0 + *x as f64;
                }
                if b.neg {
                    -v
                } else {
                    v
                }
            }
        }
    }
    pub fn to_string(&self) -> String {
        match &self.0 {
            Rep::S(x) => x.to_string(),
            Rep::B(b) => {
                let mut parts = vec![];
                let mut m = b.mag.clone();
                while !m.is_empty() {
                    let (q, r) = divrem_mag(&m, &[1_000_000_000]);
                    parts.push(*r.first().unwrap_or(&0));
                    m = q;
                }
                let mut s = String::new();
                if b.neg {
                    s.push('-');
                }
                s += &parts.pop().unwrap().to_string();
                for p in parts.iter().rev() {
                    s += &format!("{:09}", p);
                }
                s
            }
        }
    }
    fn shl(&self, n: u32) -> Int {
        let mut r = self.clone();
        let mut n = n;
        while n >= 60 {
            r = r.mul(&Int::of(1 << 60));
            n -= 60;
        }
        r.mul(&Int::of(1i128 << n))
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Q {
    pub n: Int,
    pub d: Int,
}

impl Q {
    pub fn new(n: Int, d: Int) -> Q {
        assert!(!d.is_zero());
        if d.is_one() {
            return Q { n, d };
        }
        let g = n.gcd(&d);
        let (mut n, mut d) = if g.is_one() { (n, d) } else { (n.divrem(&g).0, d.divrem(&g).0) };
        if d.is_neg() {
            n = n.neg();
            d = d.neg();
        }
        Q { n, d }
    }
    pub fn int(x: i128) -> Q {
        Q { n: Int::of(x), d: Int::one() }
    }
    pub fn frac(a: i128, b: i128) -> Q {
        Q::new(Int::of(a), Int::of(b))
    }
    pub fn zero() -> Q {
        Q::int(0)
    }
    pub fn one() -> Q {
        Q::int(1)
    }
    pub fn is_zero(&self) -> bool {
        self.n.is_zero()
    }
    pub fn is_one(&self) -> bool {
        self.n.is_one() && self.d.is_one()
    }
    pub fn sign(&self) -> i32 {
        if self.n.is_zero() {
            0
        } else if self.n.is_neg() {
            -1
        } else {
            1
        }
    }
    pub fn neg(&self) -> Q {
        Q { n: self.n.neg(), d: self.d.clone() }
    }
    pub fn add(&self, o: &Q) -> Q {
        if self.d.is_one() && o.d.is_one() {
            return Q { n: self.n.add(&o.n), d: Int::one() };
        }
        Q::new(self.n.mul(&o.d).add(&o.n.mul(&self.d)), self.d.mul(&o.d))
    }
    pub fn sub(&self, o: &Q) -> Q {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Q) -> Q {
        if self.d.is_one() && o.d.is_one() {
            return Q { n: self.n.mul(&o.n), d: Int::one() };
        }
        Q::new(self.n.mul(&o.n), self.d.mul(&o.d))
    }
    pub fn inv(&self) -> Q {
        Q::new(self.d.clone(), self.n.clone())
    }
    pub fn div(&self, o: &Q) -> Q {
        self.mul(&o.inv())
    }
    pub fn cmp(&self, o: &Q) -> Ordering {
        self.n.mul(&o.d).cmp(&o.n.mul(&self.d))
    }
    pub fn to_f64(&self) -> f64 {
        // scale so that both parts stay finite
        let (bn, bd) = (self.n.bits(), self.d.bits());
        if bn < 900 && bd < 900 {
            return self.n.to_f64() / self.d.to_f64();
        }
        let cut = bn.min(bd).saturating_sub(400) as u32;
        let s = Int::one().shl(cut);
        self.n.divrem(&s).0.to_f64() / self.d.divrem(&s).0.to_f64()
    }
    /// exact value of a finite f64
    pub fn from_f64(x: f64) -> Q {
        assert!(x.is_finite());
        if x == 0.0 {
            return Q::zero();
        }
        let b = x.to_bits();
        let e = ((b >> 52) & 0x7ff) as i32;
        let m = (b & ((1 << 52) - 1)) as i128;
        let (m, e) = if e == 0 { (m, -1074) } else { (m | (1 << 52), e - 1075) };
        let m = if x < 0.0 { -m } else { m };
        if e >= 0 {
            Q { n: Int::of(m).shl(e as u32), d: Int::one() }
        } else {
            Q::new(Int::of(m), Int::one().shl((-e) as u32))
        }
    }
    pub fn smt(&self) -> String {
        let a = self.n.abs().to_string();
        let s = if self.d.is_one() {
            format!("{}.0", a)
        } else {
            format!("(/ {}.0 {}.0)", a, self.d.to_string())
        };
        if self.n.is_neg() {
            format!("(- {})", s)
        } else {
            s
        }
    }
}
