//! Element types with exact arithmetic: Z/n (a field when n is prime) and free rings.

use num::{Num, One, Signed, Zero};
use std::collections::BTreeMap;
use std::fmt;
use std::ops::*;

/// Z/P.
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Gf<const P: u64>(pub u64);

/// A prime field large enough that small integers behave as in characteristic zero.
pub type Fp = Gf<1_000_003>;

impl<const P: u64> Gf<P> {
    pub fn of(v: i64) -> Self {
        Gf(v.rem_euclid(P as i64) as u64)
    }
    pub fn inv(self) -> Self {
        assert!(self.0 != 0, "division by zero");
        if P < 12 {
            return Gf((1..P).find(|x| x * self.0 % P == 1).expect("not invertible"));
        }
        // extended Euclid
        let (mut r0, mut r1, mut s0, mut s1) = (P as i64, self.0 as i64, 0i64, 1i64);
        while r1 != 0 {
            let q = r0 / r1;
            (r0, r1) = (r1, r0 - q * r1);
            (s0, s1) = (s1, s0 - q * s1);
        }
        assert!(r0 == 1, "not invertible");
        Gf(s0.rem_euclid(P as i64) as u64)
    }
}
impl<const P: u64> fmt::Debug for Gf<P> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl<const P: u64> Add for Gf<P> {
    type Output = Self;
    #[inline]
    fn add(self, o: Self) -> Self {
        Gf((self.0 + o.0) % P)
    }
}
impl<const P: u64> Sub for Gf<P> {
    type Output = Self;
    #[inline]
    fn sub(self, o: Self) -> Self {
        Gf((self.0 + P - o.0) % P)
    }
}
impl<const P: u64> Mul for Gf<P> {
    type Output = Self;
    #[inline]
    fn mul(self, o: Self) -> Self {
        Gf(self.0 * o.0 % P)
    }
}
impl<const P: u64> Div for Gf<P> {
    type Output = Self;
    fn div(self, o: Self) -> Self {
        self * o.inv()
    }
}
impl<const P: u64> Rem for Gf<P> {
    type Output = Self;
    fn rem(self, _: Self) -> Self {
        Gf(0)
    }
}
impl<const P: u64> Neg for Gf<P> {
    type Output = Self;
    #[inline]
    fn neg(self) -> Self {
        Gf((P - self.0) % P)
    }
}
macro_rules! refs {
    ($($tr:ident $f:ident $tra:ident $fa:ident;)*) => {$(
        impl<'a, const P: u64> $tr<&'a Gf<P>> for Gf<P> { type Output = Gf<P>; #[inline] fn $f(self, o: &'a Gf<P>) -> Gf<P> { $tr::$f(self, *o) } }
        impl<'b, const P: u64> $tr<Gf<P>> for &'b Gf<P> { type Output = Gf<P>; #[inline] fn $f(self, o: Gf<P>) -> Gf<P> { $tr::$f(*self, o) } }
        impl<'a, 'b, const P: u64> $tr<&'a Gf<P>> for &'b Gf<P> { type Output = Gf<P>; #[inline] fn $f(self, o: &'a Gf<P>) -> Gf<P> { $tr::$f(*self, *o) } }
        impl<const P: u64> $tra for Gf<P> { #[inline] fn $fa(&mut self, o: Gf<P>) { *self = $tr::$f(*self, o); } }
    )*};
}
refs! {
    Add add AddAssign add_assign;
    Sub sub SubAssign sub_assign;
    Mul mul MulAssign mul_assign;
    Div div DivAssign div_assign;
}
impl<const P: u64> Zero for Gf<P> {
    #[inline]
    fn zero() -> Self {
        Gf(0)
    }
    #[inline]
    fn is_zero(&self) -> bool {
        self.0 == 0
    }
}
impl<const P: u64> One for Gf<P> {
    #[inline]
    fn one() -> Self {
        Gf(1 % P)
    }
}
impl<const P: u64> Num for Gf<P> {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<Self, ()> {
        Err(())
    }
}
/// There is no sign in Z/P; the trait is required by `Cofactor` for negation and one only.
// The upper half of the elements counts as negative, so that code that asks for signs takes both ways.
impl<const P: u64> Signed for Gf<P> {
    fn abs(&self) -> Self {
        if self.is_negative() {
            -*self
        } else {
            *self
        }
    }
    fn abs_sub(&self, o: &Self) -> Self {
        *self - *o
    }
    fn signum(&self) -> Self {
        match self.0 {
            0 => Gf(0),
            _ if self.is_negative() => -Self::one(),
            _ => Self::one(),
        }
    }
    fn is_positive(&self) -> bool {
        self.0 != 0 && !self.is_negative()
    }
    fn is_negative(&self) -> bool {
        self.0 > P / 2
    }
}

/// The free ring over the integers: polynomials in variables that commute (`COMM`) or do not.
#[derive(Clone, PartialEq, Eq, Hash, Default)]
pub struct Free<const COMM: bool>(pub BTreeMap<Vec<u16>, i64>);
/// non-commutative
pub type Nc = Free<false>;
/// commutative
pub type Poly = Free<true>;

impl<const C: bool> Free<C> {
    pub fn var(i: usize) -> Self {
        Free([(vec![i as u16], 1)].into_iter().collect())
    }
    pub fn int(i: i64) -> Self {
        if i == 0 {
            Free(BTreeMap::new())
        } else {
            Free([(vec![], i)].into_iter().collect())
        }
    }
    /// the value, if this is a constant
    pub fn constant(&self) -> Option<i64> {
        match self.0.iter().next() {
            None => Some(0),
            Some((k, v)) if k.is_empty() && self.0.len() == 1 => Some(*v),
            _ => None,
        }
    }
    fn put(&mut self, k: Vec<u16>, v: i64) {
        use std::collections::btree_map::Entry::*;
        match self.0.entry(k) {
            Vacant(e) => {
                if v != 0 {
                    e.insert(v);
                }
            }
            Occupied(mut e) => {
                *e.get_mut() += v;
                if *e.get() == 0 {
                    e.remove();
                }
            }
        }
    }
    fn acc(mut self, o: &Self, s: i64) -> Self {
        for (k, v) in &o.0 {
            self.put(k.clone(), s * v);
        }
        self
    }
    fn times(&self, o: &Self) -> Self {
        let mut r = Free(BTreeMap::new());
        for (a, x) in &self.0 {
            for (b, y) in &o.0 {
                let mut k = a.clone();
                k.extend(b);
                if C {
                    k.sort();
                }
                r.put(k, x * y);
            }
        }
        r
    }
}
impl<const C: bool> fmt::Debug for Free<C> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        if self.0.is_empty() {
            return write!(f, "0");
        }
        for (i, (k, v)) in self.0.iter().enumerate() {
            if i == 8 {
                return write!(f, " + ...");
            }
            write!(f, "{}{}", if i > 0 { " + " } else { "" }, if *v != 1 || k.is_empty() { v.to_string() } else { "".into() })?;
            for x in k {
                write!(f, "x{}", x)?;
            }
        }
        Ok(())
    }
}
macro_rules! free_ops {
    ($($tr:ident $f:ident $tra:ident $fa:ident |$a:ident, $b:ident| $e:expr;)*) => {$(
        impl<const C: bool> $tr for Free<C> { type Output = Self; fn $f(self, o: Self) -> Self { let ($a, $b) = (self, &o); $e } }
        impl<'a, const C: bool> $tr<&'a Free<C>> for Free<C> { type Output = Self; fn $f(self, o: &'a Self) -> Self { let ($a, $b) = (self, o); $e } }
        impl<'b, const C: bool> $tr<Free<C>> for &'b Free<C> { type Output = Free<C>; fn $f(self, o: Free<C>) -> Free<C> { let ($a, $b) = (self.clone(), &o); $e } }
        impl<'a, 'b, const C: bool> $tr<&'a Free<C>> for &'b Free<C> { type Output = Free<C>; fn $f(self, o: &'a Free<C>) -> Free<C> { let ($a, $b) = (self.clone(), o); $e } }
        impl<const C: bool> $tra for Free<C> { fn $fa(&mut self, o: Self) { let ($a, $b) = (std::mem::take(self), &o); *self = $e; } }
    )*};
}
free_ops! {
    Add add AddAssign add_assign |a, b| a.acc(b, 1);
    Sub sub SubAssign sub_assign |a, b| a.acc(b, -1);
    Mul mul MulAssign mul_assign |a, b| a.times(b);
}
impl<const C: bool> Neg for Free<C> {
    type Output = Self;
    fn neg(self) -> Self {
        Self::int(0).acc(&self, -1)
    }
}
impl<const C: bool> Zero for Free<C> {
    fn zero() -> Self {
        Self::int(0)
    }
    fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
}
impl<const C: bool> One for Free<C> {
    fn one() -> Self {
        Self::int(1)
    }
}
// `Signed` is what `Cofactor` asks for; the closed forms need negation and one of it.  Nothing else exists in a ring:
// code that asks for more is not judged by these executions (they are counted as pruned).
free_ops! {
    Div div DivAssign div_assign |_a, _b| crate::explore::abstain();
    Rem rem RemAssign rem_assign |_a, _b| crate::explore::abstain();
}
impl<const C: bool> Num for Free<C> {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<Self, ()> {
        Err(())
    }
}
impl<const C: bool> Signed for Free<C> {
    fn abs(&self) -> Self {
        crate::explore::abstain()
    }
    fn abs_sub(&self, _: &Self) -> Self {
        crate::explore::abstain()
    }
    fn signum(&self) -> Self {
        crate::explore::abstain()
    }
    fn is_positive(&self) -> bool {
        crate::explore::abstain()
    }
    fn is_negative(&self) -> bool {
        crate::explore::abstain()
    }
}
