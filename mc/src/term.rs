//! Free term algebra over four distinct types: every element-wise operation is recorded as a term, so the
//! result of an operator shows which operations were applied to which elements, in which order.

use std::fmt;
use std::ops::*;
use std::rc::Rc;

#[derive(PartialEq, Eq, Hash)]
pub enum E {
    Leaf(&'static str, u32),
    Op(char, Rc<E>, Rc<E>),
    Neg(Rc<E>),
}
impl fmt::Debug for E {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            E::Leaf(s, i) => write!(f, "{}{}", s, i),
            E::Op(o, a, b) => write!(f, "({:?}{}{:?})", a, o, b),
            E::Neg(a) => write!(f, "-{:?}", a),
        }
    }
}
thread_local! {
    static OPS: std::cell::Cell<u64> = std::cell::Cell::new(0);
}
/// Operations applied since the last call.
pub fn ops() -> u64 {
    OPS.with(|o| o.replace(0))
}
fn count() {
    OPS.with(|o| o.set(o.get() + 1));
}
fn cop(o: char, a: &Rc<E>, b: &Rc<E>) -> Rc<E> {
    count();
    op(o, a, b)
}
fn cneg(a: &Rc<E>) -> Rc<E> {
    count();
    neg(a)
}

pub fn leaf(s: &'static str, i: usize) -> Rc<E> {
    Rc::new(E::Leaf(s, i as u32))
}
pub fn op(o: char, a: &Rc<E>, b: &Rc<E>) -> Rc<E> {
    Rc::new(E::Op(o, a.clone(), b.clone()))
}
pub fn neg(a: &Rc<E>) -> Rc<E> {
    Rc::new(E::Neg(a.clone()))
}

macro_rules! types {
    ($($t:ident)*) => {$(
        #[derive(Clone, PartialEq, Eq, Hash)]
        pub struct $t(pub Rc<E>);
        impl fmt::Debug for $t { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { self.0.fmt(f) } }
    )*};
}
types!(A B C D);

/// A scalar type that vectors and matrices can be multiplied with.
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct S(pub Rc<E>);

macro_rules! bin {
    ($t:ident $u:ident $o:ident : $($tr:ident $f:ident $c:expr;)*) => {$(
        impl $tr<$u> for $t { type Output = $o; fn $f(self, x: $u) -> $o { $o(cop($c, &self.0, &x.0)) } }
        impl<'a> $tr<&'a $u> for $t { type Output = $o; fn $f(self, x: &'a $u) -> $o { $o(cop($c, &self.0, &x.0)) } }
        impl<'b> $tr<$u> for &'b $t { type Output = $o; fn $f(self, x: $u) -> $o { $o(cop($c, &self.0, &x.0)) } }
        impl<'a, 'b> $tr<&'a $u> for &'b $t { type Output = $o; fn $f(self, x: &'a $u) -> $o { $o(cop($c, &self.0, &x.0)) } }
    )*};
}
macro_rules! asg {
    ($t:ident $u:ident : $($tr:ident $f:ident $c:expr;)*) => {$(
        impl $tr<$u> for $t { fn $f(&mut self, x: $u) { self.0 = cop($c, &self.0, &x.0); } }
    )*};
}
// mixed types: A (+) B gives C; same types: A (+) A gives D, B (+) B gives B
bin!(A B C : Add add '+'; Sub sub '-';);
bin!(A A D : Add add '+'; Sub sub '-';);
bin!(B B B : Add add '+'; Sub sub '-'; Mul mul '*'; Div div '/';);
bin!(A S C : Mul mul '*'; Div div '/';);
bin!(S B D : Mul mul '*'; Div div '/';);
asg!(A B : AddAssign add_assign '+'; SubAssign sub_assign '-';);
asg!(B B : AddAssign add_assign '+'; SubAssign sub_assign '-'; MulAssign mul_assign '*'; DivAssign div_assign '/';);
asg!(A S : MulAssign mul_assign '*'; DivAssign div_assign '/';);
impl Neg for A {
    type Output = C;
    fn neg(self) -> C {
        C(cneg(&self.0))
    }
}
impl Neg for B {
    type Output = B;
    fn neg(self) -> B {
        B(cneg(&self.0))
    }
}
