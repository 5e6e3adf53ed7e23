//! The symbolic scalar: a handle into the thread's term graph that implements every trait the
//! library asks of its element type, so that the library's own generic code runs on it.
use crate::engine::*;
use crate::rat::Q;
use ndarray::ScalarOperand;
use num_traits::{Float, Num, NumCast, One, ToPrimitive, Zero};
use std::cmp::Ordering;
use std::fmt;
use std::num::FpCategory;
use std::ops::*;

#[derive(Clone, Copy)]
pub struct Sym(pub Id);

impl Sym {
    pub fn f(x: f64) -> Sym {
        Sym(with(|e| e.of_f64(x)))
    }
    pub fn q(q: Q) -> Sym {
        Sym(with(|e| e.cst(q)))
    }
    fn decide(self, set: u8) -> bool {
        with(|e| e.decide(self.0, set))
    }
    fn nan(self) -> bool {
        with(|e| e.special(self.0).map(|x| x.is_nan()).unwrap_or(false))
    }
    fn spec(self) -> Option<f64> {
        with(|e| e.special(self.0))
    }
}

macro_rules! bin {
    ($tr:ident, $m:ident, $atr:ident, $am:ident, $f:ident) => {
        impl $tr for Sym {
            type Output = Sym;
            fn $m(self, o: Sym) -> Sym {
                Sym(with(|e| e.$f(self.0, o.0)))
            }
        }
        impl<'a> $tr<&'a Sym> for Sym {
            type Output = Sym;
            fn $m(self, o: &'a Sym) -> Sym {
                Sym(with(|e| e.$f(self.0, o.0)))
            }
        }
        impl $atr for Sym {
            fn $am(&mut self, o: Sym) {
                *self = Sym(with(|e| e.$f(self.0, o.0)));
            }
        }
    };
}
bin!(Add, add, AddAssign, add_assign, add);
bin!(Sub, sub, SubAssign, sub_assign, sub);
bin!(Mul, mul, MulAssign, mul_assign, mul);
bin!(Div, div, DivAssign, div_assign, div);
impl Rem for Sym {
    type Output = Sym;
    fn rem(self, _: Sym) -> Sym {
        unsup("rem")
    }
}
impl RemAssign for Sym {
    fn rem_assign(&mut self, _: Sym) {
        unsup("rem");
    }
}
impl Neg for Sym {
    type Output = Sym;
    fn neg(self) -> Sym {
        Sym(with(|e| e.neg(self.0)))
    }
}
fn unsup(what: &str) -> Sym {
    std::panic::panic_any(Abort::Cut(format!("operation `{}` is not encoded", what)))
}
impl Zero for Sym {
    fn zero() -> Sym {
        Sym(with(|e| e.cst(Q::zero())))
    }
    fn is_zero(&self) -> bool {
        if self.spec().is_some() {
            return false;
        }
        self.decide(ZERO)
    }
}
impl One for Sym {
    fn one() -> Sym {
        Sym(with(|e| e.cst(Q::one())))
    }
}
impl std::iter::Sum for Sym {
    fn sum<I: Iterator<Item = Sym>>(it: I) -> Sym {
        it.fold(Sym::zero(), |a, b| a + b)
    }
}
impl<'a> std::iter::Sum<&'a Sym> for Sym {
    fn sum<I: Iterator<Item = &'a Sym>>(it: I) -> Sym {
        it.fold(Sym::zero(), |a, b| a + *b)
    }
}
/// -1, 0, 1 for infinities compared with anything; None when both are ordinary terms
fn spec_cmp(a: Sym, b: Sym) -> Option<Option<Ordering>> {
    let (x, y) = (a.spec(), b.spec());
    if x.is_none() && y.is_none() {
        return None;
    }
    with(|e| e.tick());
    Some(x.unwrap_or(0.0).partial_cmp(&y.unwrap_or(0.0)))
}
impl PartialEq for Sym {
    fn eq(&self, o: &Sym) -> bool {
        if let Some(r) = spec_cmp(*self, *o) {
            return r == Some(Ordering::Equal);
        }
        self.0 == o.0 || (*self - *o).decide(ZERO)
    }
}
impl PartialOrd for Sym {
    fn partial_cmp(&self, o: &Sym) -> Option<Ordering> {
        if let Some(r) = spec_cmp(*self, *o) {
            return r;
        }
        if self.0 == o.0 {
            return Some(Ordering::Equal);
        }
        let d = *self - *o;
        Some(if d.decide(NEG) {
            Ordering::Less
        } else if d.decide(ZERO) {
            Ordering::Equal
        } else {
            Ordering::Greater
        })
    }
    fn lt(&self, o: &Sym) -> bool {
        if let Some(r) = spec_cmp(*self, *o) {
            return r == Some(Ordering::Less);
        }
        (*self - *o).decide(NEG)
    }
    fn gt(&self, o: &Sym) -> bool {
        o.lt(self)
    }
    fn le(&self, o: &Sym) -> bool {
        if let Some(r) = spec_cmp(*self, *o) {
            return matches!(r, Some(Ordering::Less | Ordering::Equal));
        }
        (*self - *o).decide(NEG | ZERO)
    }
    fn ge(&self, o: &Sym) -> bool {
        o.le(self)
    }
}
impl fmt::Debug for Sym {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "t{}", self.0)
    }
}
impl fmt::Display for Sym {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "t{}", self.0)
    }
}
impl fmt::LowerExp for Sym {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "t{}", self.0)
    }
}
impl fmt::UpperExp for Sym {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "t{}", self.0)
    }
}
impl ScalarOperand for Sym {}
impl ToPrimitive for Sym {
    fn to_i64(&self) -> Option<i64> {
        self.to_f64().map(|x| x as i64)
    }
    fn to_u64(&self) -> Option<u64> {
        self.to_f64().map(|x| x as u64)
    }
    fn to_f64(&self) -> Option<f64> {
        with(|e| match &e.nodes[self.0 as usize] {
            Op::C(q) => Some(q.to_f64()),
            _ => e.special(self.0),
        })
    }
}
impl NumCast for Sym {
    fn from<T: ToPrimitive>(n: T) -> Option<Sym> {
        n.to_f64().map(Sym::f)
    }
}
impl Num for Sym {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<Sym, ()> {
        Err(())
    }
}
impl linfa_linalg::lobpcg::MagnitudeCorrection for Sym {
    fn correction() -> Sym {
        Sym::f(1.0e6)
    }
}

impl Float for Sym {
    fn nan() -> Self {
        Sym::f(f64::NAN)
    }
    fn infinity() -> Self {
        Sym::f(f64::INFINITY)
    }
    fn neg_infinity() -> Self {
        Sym::f(f64::NEG_INFINITY)
    }
    fn neg_zero() -> Self {
        Sym::zero()
    }
    fn min_value() -> Self {
        Sym::f(f64::MIN)
    }
    fn min_positive_value() -> Self {
        Sym::f(f64::MIN_POSITIVE)
    }
    fn max_value() -> Self {
        Sym::f(f64::MAX)
    }
    fn epsilon() -> Self {
        let x = with(|e| e.eps);
        Sym::f(x)
    }
    fn is_nan(self) -> bool {
        self.nan()
    }
    fn is_infinite(self) -> bool {
        self.spec().map(|x| x.is_infinite()).unwrap_or(false)
    }
    fn is_finite(self) -> bool {
        self.spec().is_none()
    }
    fn is_normal(self) -> bool {
        self.spec().is_none() && !self.is_zero()
    }
    fn classify(self) -> FpCategory {
        match self.spec() {
            Some(x) => x.classify(),
            None => {
                if self.is_zero() {
                    FpCategory::Zero
                } else {
                    FpCategory::Normal
                }
            }
        }
    }
    fn floor(self) -> Self {
        unsup("floor")
    }
    fn ceil(self) -> Self {
        unsup("ceil")
    }
    fn round(self) -> Self {
        unsup("round")
    }
    fn trunc(self) -> Self {
        unsup("trunc")
    }
    fn fract(self) -> Self {
        unsup("fract")
    }
    fn abs(self) -> Self {
        Sym(with(|e| e.abs(self.0)))
    }
    fn signum(self) -> Self {
        if let Some(x) = self.spec() {
            return Sym::f(x.signum());
        }
        if self.is_sign_negative() {
            -Sym::one()
        } else {
            Sym::one()
        }
    }
    fn is_sign_positive(self) -> bool {
        !self.is_sign_negative()
    }
    fn is_sign_negative(self) -> bool {
        if let Some(x) = self.spec() {
            return x.is_sign_negative();
        }
        self.decide(NEG) || (with(|e| e.zsign) && self.decide(ZERO) && with(|e| e.zero_sign(self.0)))
    }
    fn mul_add(self, a: Self, b: Self) -> Self {
        self * a + b
    }
    fn recip(self) -> Self {
        Sym::one() / self
    }
    fn powi(self, n: i32) -> Self {
        let mut r = Sym::one();
        for _ in 0..n.unsigned_abs() {
            r = r * self;
        }
        if n < 0 {
            r.recip()
        } else {
            r
        }
    }
    fn powf(self, n: Self) -> Self {
        match n.to_f64() {
            Some(x) if x == 0.5 => self.sqrt(),
            Some(x) if x == -0.5 => self.sqrt().recip(),
            Some(x) if x.fract() == 0.0 && x.abs() < 64.0 => self.powi(x as i32),
            _ => unsup("powf"),
        }
    }
    fn sqrt(self) -> Self {
        Sym(with(|e| e.sqrt(self.0)))
    }
    fn exp(self) -> Self {
        unsup("exp")
    }
    fn exp2(self) -> Self {
        unsup("exp2")
    }
    fn ln(self) -> Self {
        unsup("ln")
    }
    fn log(self, _: Self) -> Self {
        unsup("log")
    }
    fn log2(self) -> Self {
        unsup("log2")
    }
    fn log10(self) -> Self {
        unsup("log10")
    }
    fn max(self, o: Self) -> Self {
        Sym(with(|e| e.max(self.0, o.0)))
    }
    fn min(self, o: Self) -> Self {
        Sym(with(|e| e.min(self.0, o.0)))
    }
    fn abs_sub(self, o: Self) -> Self {
        (self - o).max(Sym::zero())
    }
    fn cbrt(self) -> Self {
        unsup("cbrt")
    }
    fn hypot(self, o: Self) -> Self {
        (self * self + o * o).sqrt()
    }
    fn sin(self) -> Self {
        unsup("sin")
    }
    fn cos(self) -> Self {
        unsup("cos")
    }
    fn tan(self) -> Self {
        unsup("tan")
    }
    fn asin(self) -> Self {
        unsup("asin")
    }
    fn acos(self) -> Self {
        unsup("acos")
    }
    fn atan(self) -> Self {
        unsup("atan")
    }
    fn atan2(self, _: Self) -> Self {
        unsup("atan2")
    }
    fn sin_cos(self) -> (Self, Self) {
        (unsup("sin_cos"), self)
    }
    fn exp_m1(self) -> Self {
        unsup("exp_m1")
    }
    fn ln_1p(self) -> Self {
        unsup("ln_1p")
    }
    fn sinh(self) -> Self {
        unsup("sinh")
    }
    fn cosh(self) -> Self {
        unsup("cosh")
    }
    fn tanh(self) -> Self {
        unsup("tanh")
    }
    fn asinh(self) -> Self {
        unsup("asinh")
    }
    fn acosh(self) -> Self {
        unsup("acosh")
    }
    fn atanh(self) -> Self {
        unsup("atanh")
    }
    fn integer_decode(self) -> (u64, i16, i8) {
        unsup("integer_decode");
        (0, 0, 0)
    }
    fn copysign(self, s: Self) -> Self {
        self.abs() * s.signum()
    }
}
impl ndarray::NdFloat for Sym {}
