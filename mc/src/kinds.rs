//! Field elements (integers modulo 251) in every representation that generic code can tell apart without being told the
//! type: sizes from 1 to 4160 bytes, alignments from 1 to 64, with and without a destructor.  Every word of an element holds its value
//! (so that a torn copy is seen), and elements with a destructor are counted per value.
use crate::tok::{self, tick, Elem};
use approx::ApproxEq;
use num::{Bounded, Num, One, Signed, Zero};
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::fmt;
use std::ops::*;

pub const Q: i64 = 251;
const TORN: u8 = 253;

pub trait Word: Copy + 'static {
    fn of(v: u8) -> Self;
    fn get(self) -> u8;
}
macro_rules! words {
    ($($t:ty = $k:expr;)*) => { $(
        impl Word for $t {
            fn of(v: u8) -> $t { (v as $t).wrapping_mul($k as $t) }
            fn get(self) -> u8 { let v = self as u8; if self == <$t as Word>::of(v) { v } else { TORN } }
        }
    )* };
}
words! { u8 = 1u8; u16 = 0x0101u16; u32 = 0x0101_0101u32; u64 = 0x0101_0101_0101_0101u64; u128 = 0x0101_0101_0101_0101_0101_0101_0101_0101u128; }
#[derive(Clone, Copy)]
#[repr(align(64))]
pub struct Line(u8);
impl Word for Line {
    fn of(v: u8) -> Line {
        Line(v)
    }
    fn get(self) -> u8 {
        self.0
    }
}

pub trait Slot: 'static {
    const DROPS: bool;
    fn of(v: u8) -> Self;
    fn get(&self) -> u8;
}
fn all<W: Word, const K: usize>(a: &[W; K]) -> u8 {
    let v = a[0].get();
    if a.iter().all(|w| w.get() == v) {
        v
    } else {
        TORN
    }
}
/// Without a destructor.
pub struct Pl<W: Word, const K: usize>([W; K]);
impl<W: Word, const K: usize> Slot for Pl<W, K> {
    const DROPS: bool = false;
    fn of(v: u8) -> Self {
        Pl([W::of(v); K])
    }
    fn get(&self) -> u8 {
        all(&self.0)
    }
}
/// With one.
pub struct Dr<W: Word, const K: usize>([W; K]);
thread_local! {
    static ALIVE: RefCell<[i32; 256]> = const { RefCell::new([0; 256]) };
    static WILD: Cell<u32> = const { Cell::new(0) };
}
impl<W: Word, const K: usize> Slot for Dr<W, K> {
    const DROPS: bool = true;
    fn of(v: u8) -> Self {
        ALIVE.with(|a| a.borrow_mut()[v as usize] += 1);
        tok::count(1);
        Dr([W::of(v); K])
    }
    fn get(&self) -> u8 {
        all(&self.0)
    }
}
impl<W: Word, const K: usize> Drop for Dr<W, K> {
    fn drop(&mut self) {
        let v = all(&self.0);
        ALIVE.with(|a| a.borrow_mut()[v as usize] -= 1);
        tok::count(-1);
        self.0 = [W::of(255); K];
        tok::tick_drop();
    }
}
/// To be called before anything is created.
pub fn reset() {
    tok::reset();
    ALIVE.with(|a| *a.borrow_mut() = [0; 256]);
    WILD.with(|w| w.set(0));
}
/// Fails unless every element that has a destructor was dropped once.
pub fn verify(when: &str) {
    for v in 0..256 {
        let n = ALIVE.with(|a| a.borrow()[v]);
        if n != 0 {
            crate::fail(format!("{}: {} of the elements of value {}", when, if n > 0 { format!("{} leaked", n) } else { format!("{} drops too many", -n) }, v));
        }
    }
    tok::verify(0, when);
}

/// Fails if something else than an element was used as one.  (Who owns what is for other properties.)
pub fn settle(when: &str) {
    let n = WILD.with(|w| w.get());
    if n != 0 {
        crate::fail(format!("{}: memory that is not an element was used as one {} times", when, n));
    }
}

pub struct F<S: Slot>(S);
impl<S: Slot> F<S> {
    pub fn new(v: i64) -> F<S> {
        F(S::of(v.rem_euclid(Q) as u8))
    }
    pub fn v(&self) -> i64 {
        let v = self.0.get() as i64;
        if v >= Q {
            WILD.with(|w| w.set(w.get() + 1));
            tok::error(format!("used as an element: memory that is not one ({})", v));
        }
        v
    }
}
impl<S: Slot> Clone for F<S> {
    fn clone(&self) -> Self {
        tick();
        F::new(self.v())
    }
}
impl<S: Slot> fmt::Debug for F<S> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        tick();
        write!(f, "{}", self.v())
    }
}
impl<S: Slot> fmt::Display for F<S> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        tick();
        f.pad(&self.v().to_string())
    }
}
impl<S: Slot> Default for F<S> {
    fn default() -> Self {
        tick();
        F::new(7)
    }
}
impl<S: Slot> PartialEq for F<S> {
    fn eq(&self, o: &Self) -> bool {
        tick();
        self.v() == o.v()
    }
}
impl<S: Slot> Eq for F<S> {}
impl<S: Slot> PartialOrd for F<S> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl<S: Slot> Ord for F<S> {
    fn cmp(&self, o: &Self) -> Ordering {
        tick();
        self.v().cmp(&o.v())
    }
}
pub fn inv(a: i64) -> i64 {
    (1..Q).find(|b| a * b % Q == 1).unwrap_or(0)
}
macro_rules! ops {
    ($($tr:ident $f:ident $tra:ident $fa:ident |$a:ident, $b:ident| $e:expr;)*) => { $(
        impl<S: Slot> $tr for F<S> { type Output = F<S>; fn $f(self, o: F<S>) -> F<S> { tick(); let ($a, $b) = (self.v(), o.v()); F::new($e) } }
        impl<'a, S: Slot> $tr<&'a F<S>> for F<S> { type Output = F<S>; fn $f(self, o: &F<S>) -> F<S> { tick(); let ($a, $b) = (self.v(), o.v()); F::new($e) } }
        impl<'b, S: Slot> $tr<F<S>> for &'b F<S> { type Output = F<S>; fn $f(self, o: F<S>) -> F<S> { tick(); let ($a, $b) = (self.v(), o.v()); F::new($e) } }
        impl<'a, 'b, S: Slot> $tr<&'a F<S>> for &'b F<S> { type Output = F<S>; fn $f(self, o: &F<S>) -> F<S> { tick(); let ($a, $b) = (self.v(), o.v()); F::new($e) } }
        impl<S: Slot> $tra for F<S> { fn $fa(&mut self, o: F<S>) { tick(); let ($a, $b) = (self.v(), o.v()); *self = F::new($e) } }
    )* };
}
ops! {
    Add add AddAssign add_assign |a, b| a + b; Sub sub SubAssign sub_assign |a, b| a - b; Mul mul MulAssign mul_assign |a, b| a * b;
    Div div DivAssign div_assign |a, b| a * inv(b); Rem rem RemAssign rem_assign |a, b| a % (b + 1);
}
impl<S: Slot> Neg for F<S> {
    type Output = F<S>;
    fn neg(self) -> F<S> {
        tick();
        F::new(-self.v())
    }
}
impl<S: Slot> Zero for F<S> {
    fn zero() -> Self {
        tick();
        F::new(0)
    }
    fn is_zero(&self) -> bool {
        tick();
        self.v() == 0
    }
}
impl<S: Slot> One for F<S> {
    fn one() -> Self {
        tick();
        F::new(1)
    }
}
impl<S: Slot> Num for F<S> {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<Self, ()> {
        Err(())
    }
}
// the upper half counts as negative
impl<S: Slot> Signed for F<S> {
    fn abs(&self) -> Self {
        tick();
        F::new(self.v().min(Q - self.v()))
    }
    fn abs_sub(&self, o: &Self) -> Self {
        F::new((self.v() - o.v()).max(0))
    }
    fn signum(&self) -> Self {
        F::new(match self.v() {
            0 => 0,
            v if v > Q / 2 => -1,
            _ => 1,
        })
    }
    fn is_positive(&self) -> bool {
        self.v() != 0 && !self.is_negative()
    }
    fn is_negative(&self) -> bool {
        self.v() > Q / 2
    }
}
impl<S: Slot> Bounded for F<S> {
    fn min_value() -> Self {
        tick();
        F::new(0)
    }
    fn max_value() -> Self {
        tick();
        F::new(Q - 1)
    }
}
impl<S: Slot> ApproxEq for F<S> {
    type Epsilon = i64;
    fn default_epsilon() -> i64 {
        1
    }
    fn default_max_relative() -> i64 {
        1
    }
    fn default_max_ulps() -> u32 {
        1
    }
    fn relative_eq(&self, o: &Self, e: i64, _: i64) -> bool {
        tick();
        (self.v() - o.v()).abs() <= e
    }
    fn ulps_eq(&self, o: &Self, e: i64, u: u32) -> bool {
        tick();
        (self.v() - o.v()).abs() <= e + u as i64
    }
}
impl<S: Slot> Elem for F<S> {
    const NAME: &'static str = "field element";
    const VALUES: i64 = Q;
    const COUNTED: bool = S::DROPS;
    fn make(v: i64) -> Self {
        F::new(v)
    }
    fn val(&self) -> i64 {
        self.v()
    }
}

/// Values number 0, 1, ... of a list without a pattern (some are zero).
pub fn value(list: usize, k: usize) -> i64 {
    let mut x = (list as u64 + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15).wrapping_add((k as u64).wrapping_mul(0xbf58_476d_1ce4_e5b9));
    for m in [0xff51_afd7_ed55_8ccd, 0xc4ce_b9fe_1a85_ec53u64] {
        x = (x ^ (x >> 33)).wrapping_mul(m);
    }
    ((x >> 20) % Q as u64) as i64
}

// K: without a destructor, KD: with one; size, and alignment where it is not the natural one
pub type K1 = Pl<u8, 1>;
pub type K2 = Pl<u16, 1>;
pub type K3 = Pl<u8, 3>;
pub type K4 = Pl<u32, 1>;
pub type K6 = Pl<u16, 3>;
pub type K8 = Pl<u64, 1>;
pub type K8a1 = Pl<u8, 8>;
pub type K12 = Pl<u32, 3>;
pub type K16 = Pl<u64, 2>;
pub type K16a16 = Pl<u128, 1>;
pub type K24 = Pl<u64, 3>;
pub type K32 = Pl<u64, 4>;
pub type K64a64 = Pl<Line, 1>;
pub type K72 = Pl<u64, 9>;
pub type K128a16 = Pl<u128, 8>;
pub type K1000 = Pl<u64, 125>;
pub type KD1 = Dr<u8, 1>;
pub type KD2 = Dr<u16, 1>;
pub type KD4 = Dr<u32, 1>;
pub type KD5 = Dr<u8, 5>;
pub type KD8 = Dr<u64, 1>;
pub type KD12 = Dr<u32, 3>;
pub type KD16 = Dr<u64, 2>;
pub type KD24 = Dr<u64, 3>;
pub type KD32a16 = Dr<u128, 2>;
pub type KD128a64 = Dr<Line, 2>;
pub type KD4160a64 = Dr<Line, 65>;

/// `$m!(kind, args...)` for every kind of element.
#[macro_export]
macro_rules! for_kinds {
    ($m:ident $(, $a:tt)*) => {
        $m!(K1 $(, $a)*); $m!(K2 $(, $a)*); $m!(K3 $(, $a)*); $m!(K4 $(, $a)*); $m!(K6 $(, $a)*); $m!(K8 $(, $a)*);
        $m!(K8a1 $(, $a)*); $m!(K12 $(, $a)*); $m!(K16 $(, $a)*); $m!(K16a16 $(, $a)*); $m!(K24 $(, $a)*); $m!(K32 $(, $a)*);
        $m!(K64a64 $(, $a)*); $m!(K72 $(, $a)*); $m!(K128a16 $(, $a)*); $m!(KD1 $(, $a)*); $m!(KD2 $(, $a)*); $m!(KD4 $(, $a)*);
        $m!(KD5 $(, $a)*); $m!(KD8 $(, $a)*); $m!(KD12 $(, $a)*); $m!(KD16 $(, $a)*); $m!(KD24 $(, $a)*); $m!(KD32a16 $(, $a)*);
        $m!(KD128a64 $(, $a)*); $m!(K1000 $(, $a)*); $m!(KD4160a64 $(, $a)*);
    };
}
/// Drivers with the parameters kind and length.
#[macro_export]
macro_rules! push_kind_lens {
    (K1000, $v:ident, $f:ident) => {
        $crate::push_kind_lens!(@ K1000, $v, $f; U1, U3, U8);
    };
    (KD4160a64, $v:ident, $f:ident) => {
        $crate::push_kind_lens!(@ KD4160a64, $v, $f; U1, U2, U5);
    };
    (@ $S:ident, $v:ident, $f:ident; $($N:ident),*) => {
        $( $v.push((concat!(stringify!($S), "^", stringify!($N)), $f::<$S, $N> as fn(&mut $crate::Ctx))); )*
    };
    ($S:ident, $v:ident, $f:ident) => {
        $v.push((concat!(stringify!($S), "^0"), $f::<$S, U0> as fn(&mut $crate::Ctx)));
        $v.push((concat!(stringify!($S), "^1"), $f::<$S, U1> as fn(&mut $crate::Ctx)));
        $v.push((concat!(stringify!($S), "^2"), $f::<$S, U2> as fn(&mut $crate::Ctx)));
        $v.push((concat!(stringify!($S), "^3"), $f::<$S, U3> as fn(&mut $crate::Ctx)));
        $v.push((concat!(stringify!($S), "^4"), $f::<$S, U4> as fn(&mut $crate::Ctx)));
        $v.push((concat!(stringify!($S), "^5"), $f::<$S, U5> as fn(&mut $crate::Ctx)));
        $v.push((concat!(stringify!($S), "^8"), $f::<$S, U8> as fn(&mut $crate::Ctx)));
        $v.push((concat!(stringify!($S), "^9"), $f::<$S, U9> as fn(&mut $crate::Ctx)));
        $v.push((concat!(stringify!($S), "^16"), $f::<$S, U16> as fn(&mut $crate::Ctx)));
        $v.push((concat!(stringify!($S), "^17"), $f::<$S, U17> as fn(&mut $crate::Ctx)));
        $v.push((concat!(stringify!($S), "^32"), $f::<$S, U32> as fn(&mut $crate::Ctx)));
    };
}
/// Kind, rows and columns.
#[macro_export]
macro_rules! push_kind_shapes {
    (K1000, $v:ident, $f:ident) => {
        $crate::push_kind_shapes!(@ K1000, $v, $f; U1 U1, U2 U3, U3 U2, U3 U3);
    };
    (KD4160a64, $v:ident, $f:ident) => {
        $crate::push_kind_shapes!(@ KD4160a64, $v, $f; U1 U1, U1 U2, U2 U1, U2 U2);
    };
    (@ $S:ident, $v:ident, $f:ident; $($R:ident $C:ident),*) => {
        $( $v.push((concat!(stringify!($S), "^", stringify!($R), "x", stringify!($C)), $f::<$S, $R, $C> as fn(&mut $crate::Ctx))); )*
    };
    ($S:ident, $v:ident, $f:ident) => {
        $v.push((concat!(stringify!($S), "^0x2"), $f::<$S, U0, U2> as fn(&mut $crate::Ctx)));
        $v.push((concat!(stringify!($S), "^1x1"), $f::<$S, U1, U1> as fn(&mut $crate::Ctx)));
        $v.push((concat!(stringify!($S), "^1x5"), $f::<$S, U1, U5> as fn(&mut $crate::Ctx)));
        $v.push((concat!(stringify!($S), "^2x2"), $f::<$S, U2, U2> as fn(&mut $crate::Ctx)));
        $v.push((concat!(stringify!($S), "^2x3"), $f::<$S, U2, U3> as fn(&mut $crate::Ctx)));
        $v.push((concat!(stringify!($S), "^3x2"), $f::<$S, U3, U2> as fn(&mut $crate::Ctx)));
        $v.push((concat!(stringify!($S), "^3x3"), $f::<$S, U3, U3> as fn(&mut $crate::Ctx)));
        $v.push((concat!(stringify!($S), "^4x4"), $f::<$S, U4, U4> as fn(&mut $crate::Ctx)));
        $v.push((concat!(stringify!($S), "^5x1"), $f::<$S, U5, U1> as fn(&mut $crate::Ctx)));
        $v.push((concat!(stringify!($S), "^5x5"), $f::<$S, U5, U5> as fn(&mut $crate::Ctx)));
        $v.push((concat!(stringify!($S), "^3x8"), $f::<$S, U3, U8> as fn(&mut $crate::Ctx)));
        $v.push((concat!(stringify!($S), "^8x3"), $f::<$S, U8, U3> as fn(&mut $crate::Ctx)));
        $v.push((concat!(stringify!($S), "^2x16"), $f::<$S, U2, U16> as fn(&mut $crate::Ctx)));
        $v.push((concat!(stringify!($S), "^9x9"), $f::<$S, U9, U9> as fn(&mut $crate::Ctx)));
    };
}
/// Kind only.
#[macro_export]
macro_rules! push_kind {
    ($S:ident, $v:ident, $f:ident) => {
        $v.push((stringify!($S), $f::<$S> as fn(&mut $crate::Ctx)));
    };
}
pub const KINDS: &str = "27 kinds of elements (1 to 4160 bytes, alignment 1 to 64, with and without a destructor)";
pub const LENS: &str = "lengths 0, 1, 2, 3, 4, 5, 8, 9, 16, 17, 32 (three of them for elements of 1000 and 4160 bytes)";
pub const SHAPES: &str = "0x2, 1x1, 1x5, 2x2, 2x3, 3x2, 3x3, 4x4, 5x1, 5x5, 3x8, 8x3, 2x16, 9x9 (four of them for the large elements)";
