//! A symbolic `Float`: polynomials in the entries, square roots of them, and quotients of the two.
//! What it computes is decided for all real values at once.  Whatever leaves this fragment abandons
//! the execution (no verdict).

use crate::explore::abstain;
use crate::ring::Poly;
use num::traits::{NumCast, ToPrimitive};
use num::{Float, Num, One, Zero};
use std::cell::RefCell;
use std::cmp::Ordering;
use std::ops::*;

#[derive(Clone, PartialEq, Debug)]
pub enum Expr {
    Poly(Poly),
    /// the square root of a polynomial
    Root(Poly),
    /// p / sqrt(q)
    Over(Poly, Poly),
}
thread_local! {
    static TABLE: RefCell<Vec<Expr>> = const { RefCell::new(Vec::new()) };
}

/// A handle on an expression: `Float` demands `Copy`.
#[derive(Clone, Copy)]
pub struct Sym(usize);

pub fn reset() {
    TABLE.with(|t| t.borrow_mut().clear())
}
fn new(e: Expr) -> Sym {
    TABLE.with(|t| {
        let mut t = t.borrow_mut();
        t.push(e);
        Sym(t.len() - 1)
    })
}
impl Sym {
    pub fn poly(p: Poly) -> Sym {
        new(Expr::Poly(p))
    }
    pub fn var(i: usize) -> Sym {
        Sym::poly(Poly::var(i))
    }
    pub fn get(self) -> Expr {
        TABLE.with(|t| t.borrow()[self.0].clone())
    }
    fn p(self) -> Poly {
        match self.get() {
            Expr::Poly(p) => p,
            _ => abstain(),
        }
    }
    fn constant(self) -> Option<i64> {
        match self.get() {
            Expr::Poly(p) => p.constant(),
            _ => None,
        }
    }
}
fn root(p: Poly) -> Sym {
    match p.constant() {
        Some(0) | Some(1) => Sym::poly(p),
        _ => new(Expr::Root(p)),
    }
}
impl std::fmt::Debug for Sym {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self.get() {
            Expr::Poly(p) => write!(f, "{:?}", p),
            Expr::Root(p) => write!(f, "sqrt({:?})", p),
            Expr::Over(p, q) => write!(f, "({:?})/sqrt({:?})", p, q),
        }
    }
}
impl Add for Sym {
    type Output = Sym;
    fn add(self, o: Sym) -> Sym {
        match (self.constant(), o.constant()) {
            (Some(0), _) => o,
            (_, Some(0)) => self,
            _ => Sym::poly(self.p() + o.p()),
        }
    }
}
impl Sub for Sym {
    type Output = Sym;
    fn sub(self, o: Sym) -> Sym {
        if o.constant() == Some(0) {
            return self;
        }
        Sym::poly(self.p() - o.p())
    }
}
impl Mul for Sym {
    type Output = Sym;
    fn mul(self, o: Sym) -> Sym {
        use self::Expr::*;
        match (self.get(), o.get()) {
            (Poly(p), Poly(q)) => Sym::poly(p * q),
            (Root(p), Root(q)) if p == q => Sym::poly(p),
            (Poly(p), x) | (x, Poly(p)) if p.constant() == Some(1) => new(x),
            (Poly(p), Over(q, r)) | (Over(q, r), Poly(p)) => new(Over(p * q, r)),
            (Over(p, r), Root(q)) | (Root(q), Over(p, r)) if q == r => Sym::poly(p),
            _ => abstain(),
        }
    }
}
impl Div for Sym {
    type Output = Sym;
    fn div(self, o: Sym) -> Sym {
        use self::Expr::*;
        match (self.get(), o.get()) {
            (x, Poly(q)) if q.constant() == Some(1) => new(x),
            (Poly(p), Root(q)) => new(Over(p, q)),
            _ => abstain(),
        }
    }
}
impl Rem for Sym {
    type Output = Sym;
    fn rem(self, _: Sym) -> Sym {
        abstain()
    }
}
impl Neg for Sym {
    type Output = Sym;
    fn neg(self) -> Sym {
        use self::Expr::*;
        match self.get() {
            Poly(p) => Sym::poly(-p),
            Over(p, q) => new(Over(-p, q)),
            Root(_) => abstain(),
        }
    }
}
impl AddAssign for Sym {
    fn add_assign(&mut self, o: Sym) {
        *self = *self + o
    }
}
impl MulAssign for Sym {
    fn mul_assign(&mut self, o: Sym) {
        *self = *self * o
    }
}
impl DivAssign for Sym {
    fn div_assign(&mut self, o: Sym) {
        *self = *self / o
    }
}
/// Different expressions have different values for almost all entries; those entries are what is decided here.
impl PartialEq for Sym {
    fn eq(&self, o: &Sym) -> bool {
        self.get() == o.get()
    }
}
impl PartialOrd for Sym {
    fn partial_cmp(&self, o: &Sym) -> Option<Ordering> {
        match (self.constant(), o.constant()) {
            (Some(a), Some(b)) => a.partial_cmp(&b),
            _ if self == o => Some(Ordering::Equal),
            _ => abstain(),
        }
    }
}
impl Zero for Sym {
    fn zero() -> Sym {
        Sym::poly(Poly::int(0))
    }
    fn is_zero(&self) -> bool {
        self.constant() == Some(0)
    }
}
impl One for Sym {
    fn one() -> Sym {
        Sym::poly(Poly::int(1))
    }
}
impl Num for Sym {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<Sym, ()> {
        abstain()
    }
}
impl ToPrimitive for Sym {
    fn to_i64(&self) -> Option<i64> {
        Some(self.constant().unwrap_or_else(|| abstain()))
    }
    fn to_u64(&self) -> Option<u64> {
        Some(self.constant().unwrap_or_else(|| abstain()) as u64)
    }
}
impl NumCast for Sym {
    fn from<T: ToPrimitive>(n: T) -> Option<Sym> {
        match (n.to_i64(), n.to_f64()) {
            (Some(i), Some(f)) if i as f64 == f => Some(Sym::poly(Poly::int(i))),
            _ => abstain(),
        }
    }
}
macro_rules! no {
    ($($f:ident($($a:ident: $T:ty),*) -> $R:ty;)*) => { $( fn $f($($a: $T),*) -> $R { $(let _ = $a;)* abstain() } )* };
    (self: $($f:ident($($a:ident),*) -> $R:ty;)*) => { $( fn $f(self $(, $a: Sym)*) -> $R { $(let _ = $a;)* abstain() } )* };
}
impl Float for Sym {
    no! { nan() -> Sym; infinity() -> Sym; neg_infinity() -> Sym; min_value() -> Sym; max_value() -> Sym; min_positive_value() -> Sym; epsilon() -> Sym; }
    no! { self: classify() -> std::num::FpCategory; floor() -> Sym; ceil() -> Sym; round() -> Sym; trunc() -> Sym; fract() -> Sym; signum() -> Sym;
          is_sign_positive() -> bool; is_sign_negative() -> bool; exp() -> Sym; exp2() -> Sym; ln() -> Sym; log(b) -> Sym; log2() -> Sym; log10() -> Sym;
          max(b) -> Sym; min(b) -> Sym; abs_sub(b) -> Sym; cbrt() -> Sym; sin() -> Sym; cos() -> Sym; tan() -> Sym; asin() -> Sym; acos() -> Sym; atan() -> Sym;
          atan2(b) -> Sym; sin_cos() -> (Sym, Sym); exp_m1() -> Sym; ln_1p() -> Sym; sinh() -> Sym; cosh() -> Sym; tanh() -> Sym; asinh() -> Sym; acosh() -> Sym;
          atanh() -> Sym; integer_decode() -> (u64, i16, i8); }
    fn neg_zero() -> Sym {
        Sym::zero()
    }
    fn is_nan(self) -> bool {
        false
    }
    fn is_infinite(self) -> bool {
        false
    }
    fn is_finite(self) -> bool {
        true
    }
    fn is_normal(self) -> bool {
        !self.is_zero()
    }
    fn abs(self) -> Sym {
        match (self.constant(), self.get()) {
            (Some(c), _) => Sym::poly(Poly::int(c.abs())),
            (_, Expr::Root(_)) => self,
            _ => abstain(),
        }
    }
    fn mul_add(self, a: Sym, b: Sym) -> Sym {
        self * a + b
    }
    fn recip(self) -> Sym {
        Sym::one() / self
    }
    fn powi(self, n: i32) -> Sym {
        if n < 0 {
            return self.powi(-n).recip();
        }
        let mut r = Sym::one();
        for _ in 0..n {
            r = r * self;
        }
        r
    }
    fn powf(self, n: Sym) -> Sym {
        match n.constant() {
            Some(n) if n.abs() < 100 => self.powi(n as i32),
            _ => abstain(),
        }
    }
    fn sqrt(self) -> Sym {
        root(self.p())
    }
    fn hypot(self, o: Sym) -> Sym {
        let sq = |x: Sym| match x.get() {
            Expr::Poly(p) => p.clone() * p,
            Expr::Root(p) => p,
            _ => abstain(),
        };
        root(sq(self) + sq(o))
    }
}
