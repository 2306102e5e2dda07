//! Tracked elements.  Every `Tok` has an identity in a thread-local registry that knows whether it is
//! alive; `ZTok` is its zero-sized relative (only counted).  All operations on tracked elements are
//! also the places where a panic of caller-supplied code can be injected.

use crate::explore::Injected;
use num::{Bounded, Num, One, Signed, Zero};
use std::cell::RefCell;
use std::cmp::Ordering;
use std::fmt;
use std::ops::*;
use std::panic::resume_unwind;

#[derive(Default)]
struct Reg {
    alive: Vec<bool>,
    n_alive: i64,
    z_alive: i64,
    errors: Vec<String>,
    calls: u64,
    drops: u64,
    fail_call: u64,
    fail_drop: u64,
}

thread_local! {
    static R: RefCell<Reg> = RefCell::new(Reg::default());
}

fn reg<T>(f: impl FnOnce(&mut Reg) -> T) -> T {
    R.with(|r| f(&mut r.borrow_mut()))
}

pub fn reset() {
    reg(|r| *r = Reg::default())
}

/// Elements of both tracked types that are alive.
pub fn alive() -> i64 {
    reg(|r| r.n_alive + r.z_alive)
}

pub fn error(e: String) {
    reg(|r| {
        if r.errors.len() < 8 {
            r.errors.push(e)
        }
    })
}

pub fn errors() -> Vec<String> {
    reg(|r| r.errors.clone())
}

/// (calls, drops) since the last reset/arm.
pub fn counts() -> (u64, u64) {
    reg(|r| (r.calls, r.drops))
}

/// Panic in the `call`-th caller-supplied call from now, or in the `drop`-th destructor (1-based, 0: never).
pub fn arm(call: u64, drop: u64) {
    reg(|r| {
        r.calls = 0;
        r.drops = 0;
        r.fail_call = call;
        r.fail_drop = drop;
    })
}

/// To be called by everything the harness supplies to the code under test.
pub fn tick() {
    let hit = reg(|r| {
        r.calls += 1;
        if r.fail_call != 0 && r.calls == r.fail_call {
            r.fail_call = 0;
            true
        } else {
            false
        }
    });
    if hit && !std::thread::panicking() {
        resume_unwind(Box::new(Injected));
    }
}

pub fn tick_drop() {
    let hit = reg(|r| {
        r.drops += 1;
        if r.fail_drop != 0 && r.drops >= r.fail_drop && !std::thread::panicking() {
            r.fail_drop = 0;
            true
        } else {
            false
        }
    });
    if hit {
        resume_unwind(Box::new(Injected));
    }
}

/// Fails the execution if a tracked element was misused, or if the number of live elements is not `expect`.
pub fn verify(expect: i64, when: &str) {
    let e = errors();
    if !e.is_empty() {
        crate::fail(format!("{}: {}", when, e.join("; ")));
    }
    let a = alive();
    if a != expect {
        crate::fail(format!(
            "{}: {} elements are alive but {} are owned by someone ({})",
            when,
            a,
            expect,
            if a > expect { "leaked" } else { "dropped too often" }
        ));
    }
}

const KEY: u32 = 0x5bd1_e995;

pub struct Tok {
    id: u32,
    chk: u32,
    val: i64,
}

impl Tok {
    pub fn new(val: i64) -> Tok {
        let id = reg(|r| {
            r.alive.push(true);
            r.n_alive += 1;
            r.alive.len() as u32 - 1
        });
        Tok { id, chk: id ^ KEY, val }
    }

    fn check(&self, what: &str) {
        let (id, chk) = (self.id, self.chk);
        let bad = if chk != id ^ KEY {
            Some("memory that is not an element")
        } else {
            reg(|r| match r.alive.get(id as usize) {
                Some(true) => None,
                Some(false) => Some("an element that was already dropped"),
                None => Some("memory that is not an element"),
            })
        };
        if let Some(b) = bad {
            error(format!("{} of {}", what, b));
        }
    }

    pub fn v(&self) -> i64 {
        self.check("read");
        self.val
    }
    pub fn id(&self) -> u32 {
        self.id
    }
}

impl Drop for Tok {
    fn drop(&mut self) {
        self.check("drop");
        let (id, ok) = (self.id, self.chk == self.id ^ KEY);
        reg(|r| {
            if ok && r.alive.get(id as usize) == Some(&true) {
                r.alive[id as usize] = false;
                r.n_alive -= 1;
            }
        });
        tick_drop();
    }
}

/// The arithmetic of tracked elements is GF(7), so that every operation is total except division by zero.
pub const P: i64 = 7;

fn inv(b: i64) -> i64 {
    let b = b.rem_euclid(P);
    assert!(b != 0, "division by zero");
    (1..P).find(|x| x * b % P == 1).unwrap()
}
fn f_add(a: i64, b: i64) -> i64 {
    (a + b).rem_euclid(P)
}
fn f_sub(a: i64, b: i64) -> i64 {
    (a - b).rem_euclid(P)
}
fn f_mul(a: i64, b: i64) -> i64 {
    (a * b).rem_euclid(P)
}
fn f_div(a: i64, b: i64) -> i64 {
    (a * inv(b)).rem_euclid(P)
}

macro_rules! ops {
    ($($tr:ident $f:ident $tra:ident $fa:ident $g:ident;)*) => {$(
        impl $tr<Tok> for Tok { type Output = Tok; fn $f(self, o: Tok) -> Tok { tick(); Tok::new($g(self.v(), o.v())) } }
        impl<'a> $tr<&'a Tok> for Tok { type Output = Tok; fn $f(self, o: &'a Tok) -> Tok { tick(); Tok::new($g(self.v(), o.v())) } }
        impl<'b> $tr<Tok> for &'b Tok { type Output = Tok; fn $f(self, o: Tok) -> Tok { tick(); Tok::new($g(self.v(), o.v())) } }
        impl<'a, 'b> $tr<&'a Tok> for &'b Tok { type Output = Tok; fn $f(self, o: &'a Tok) -> Tok { tick(); Tok::new($g(self.v(), o.v())) } }
        impl $tra<Tok> for Tok { fn $fa(&mut self, o: Tok) { tick(); self.val = $g(self.v(), o.v()); } }
    )*};
}
ops! {
    Add add AddAssign add_assign f_add;
    Sub sub SubAssign sub_assign f_sub;
    Mul mul MulAssign mul_assign f_mul;
    Div div DivAssign div_assign f_div;
}
impl Rem for Tok {
    type Output = Tok;
    fn rem(self, _: Tok) -> Tok {
        tick();
        Tok::new(0)
    }
}
impl Neg for Tok {
    type Output = Tok;
    fn neg(self) -> Tok {
        tick();
        Tok::new(f_sub(0, self.v()))
    }
}
impl Clone for Tok {
    fn clone(&self) -> Tok {
        tick();
        Tok::new(self.v())
    }
}
impl Default for Tok {
    fn default() -> Tok {
        tick();
        Tok::new(0)
    }
}
impl PartialEq for Tok {
    fn eq(&self, o: &Tok) -> bool {
        tick();
        self.v() == o.v()
    }
}
impl Eq for Tok {}
impl PartialOrd for Tok {
    fn partial_cmp(&self, o: &Tok) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Tok {
    fn cmp(&self, o: &Tok) -> Ordering {
        tick();
        self.v().cmp(&o.v())
    }
}
impl fmt::Debug for Tok {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        tick();
        write!(f, "{}", self.v())
    }
}
impl fmt::Display for Tok {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        tick();
        write!(f, "{}", self.v())
    }
}
impl Zero for Tok {
    fn zero() -> Tok {
        tick();
        Tok::new(0)
    }
    fn is_zero(&self) -> bool {
        tick();
        self.v() == 0
    }
}
impl One for Tok {
    fn one() -> Tok {
        tick();
        Tok::new(1)
    }
}
impl Bounded for Tok {
    fn min_value() -> Tok {
        tick();
        Tok::new(0)
    }
    fn max_value() -> Tok {
        tick();
        Tok::new(P - 1)
    }
}
impl Num for Tok {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<Tok, ()> {
        Err(())
    }
}
impl Signed for Tok {
    fn abs(&self) -> Tok {
        self.clone()
    }
    fn abs_sub(&self, o: &Tok) -> Tok {
        self - o
    }
    fn signum(&self) -> Tok {
        Tok::new(if self.v() == 0 { 0 } else { 1 })
    }
    fn is_positive(&self) -> bool {
        self.v() != 0
    }
    fn is_negative(&self) -> bool {
        false
    }
}
impl approx::ApproxEq for Tok {
    type Epsilon = i64;
    fn default_epsilon() -> i64 {
        0
    }
    fn default_max_relative() -> i64 {
        0
    }
    fn default_max_ulps() -> u32 {
        0
    }
    fn relative_eq(&self, o: &Tok, _: i64, _: i64) -> bool {
        tick();
        self.v() == o.v()
    }
    fn ulps_eq(&self, o: &Tok, _: i64, _: u32) -> bool {
        tick();
        self.v() == o.v()
    }
}

/// Zero-sized element with a destructor.
pub struct ZTok(());
impl ZTok {
    pub fn new() -> ZTok {
        reg(|r| r.z_alive += 1);
        ZTok(())
    }
}
impl Drop for ZTok {
    fn drop(&mut self) {
        reg(|r| {
            r.z_alive -= 1;
            if r.z_alive < 0 {
                r.errors.push("drop of a zero-sized element that was already dropped".into());
            }
        });
        tick_drop();
    }
}
impl Clone for ZTok {
    fn clone(&self) -> ZTok {
        tick();
        ZTok::new()
    }
}

/// What the generic drivers need of an element type.
pub trait Elem: Clone {
    const NAME: &'static str;
    /// number of distinct values `make` produces
    const VALUES: i64;
    /// whether `alive()` counts it
    const COUNTED: bool;
    fn make(v: i64) -> Self;
    fn val(&self) -> i64;
}
impl Elem for Tok {
    const NAME: &'static str = "tracked";
    const VALUES: i64 = i64::MAX;
    const COUNTED: bool = true;
    fn make(v: i64) -> Tok {
        Tok::new(v)
    }
    fn val(&self) -> i64 {
        self.v()
    }
}
impl Elem for ZTok {
    const NAME: &'static str = "zero-sized";
    const VALUES: i64 = 1;
    const COUNTED: bool = true;
    fn make(_: i64) -> ZTok {
        ZTok::new()
    }
    fn val(&self) -> i64 {
        0
    }
}
impl Elem for () {
    const NAME: &'static str = "unit";
    const VALUES: i64 = 1;
    const COUNTED: bool = false;
    fn make(_: i64) {}
    fn val(&self) -> i64 {
        0
    }
}
impl Elem for u8 {
    const NAME: &'static str = "u8";
    const VALUES: i64 = 256;
    const COUNTED: bool = false;
    fn make(v: i64) -> u8 {
        v as u8
    }
    fn val(&self) -> i64 {
        *self as i64
    }
}
impl Elem for i32 {
    const NAME: &'static str = "i32";
    const VALUES: i64 = 1 << 31;
    const COUNTED: bool = false;
    fn make(v: i64) -> i32 {
        v as i32
    }
    fn val(&self) -> i64 {
        *self as i64
    }
}
impl Elem for Box<i64> {
    const NAME: &'static str = "boxed";
    const VALUES: i64 = i64::MAX;
    const COUNTED: bool = false;
    fn make(v: i64) -> Box<i64> {
        Box::new(v)
    }
    fn val(&self) -> i64 {
        **self
    }
}
/// Over-aligned and larger than a word, with padding.
#[derive(Clone)]
#[repr(align(64))]
pub struct Wide(pub u8, pub i64);
impl Elem for Wide {
    const NAME: &'static str = "over-aligned";
    const VALUES: i64 = i64::MAX;
    const COUNTED: bool = false;
    fn make(v: i64) -> Wide {
        Wide(v as u8, v)
    }
    fn val(&self) -> i64 {
        if self.0 != self.1 as u8 {
            return -1;
        }
        self.1
    }
}
pub type Boxed = Box<i64>;

/// Counts elements with a destructor that are tracked elsewhere.
pub fn count(d: i64) {
    reg(|r| {
        r.z_alive += d;
        if r.z_alive < 0 {
            r.errors.push("drop of an element that was already dropped".into());
        }
    })
}
