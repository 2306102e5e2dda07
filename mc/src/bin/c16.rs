//! C16: equality and approximate equality, with the elements' answers chosen by the explorer.
use approx::ApproxEq;
use mc::kinds::{self, *};
use mc::shapes::*;
use mc::*;
use rowcol::prelude::*;
use rowcol::typenum::Unsigned;
use rowcol::vector::ArrayLen;
use rowcol_mc as mc;
use std::cell::RefCell;
use std::marker::PhantomData;

thread_local! {
    /// answers per position, and what was wrong with the questions
    static ENV: RefCell<(Vec<bool>, Option<String>)> = RefCell::new((vec![], None));
}
fn answer(left: usize, right: usize) -> bool {
    ENV.with(|e| {
        let mut e = e.borrow_mut();
        if left != right {
            e.1.get_or_insert(format!("entry {} is compared with entry {}", left, right));
        }
        e.0[left]
    })
}
fn complain(s: String) {
    ENV.with(|e| {
        e.borrow_mut().1.get_or_insert(s);
    })
}
fn start(a: &[bool]) {
    ENV.with(|e| *e.borrow_mut() = (a.to_vec(), None));
}
fn finish(what: &str) {
    if let Some(s) = ENV.with(|e| e.borrow_mut().1.take()) {
        fail(format!("{}: {}", what, s));
    }
}

/// Left and right operands; right ones have ids from 10000 up.
const RIGHT: usize = 10_000;
fn pair(a: usize, b: usize) -> (usize, usize) {
    match (a >= RIGHT, b >= RIGHT) {
        (false, true) => (a, b - RIGHT),
        (true, false) => (b, a - RIGHT),
        _ => {
            complain(format!("entries {} and {} of the same operand are compared", a % RIGHT, b % RIGHT));
            (a % RIGHT, a % RIGHT)
        }
    }
}
#[derive(Debug, Clone)]
struct L(usize);
#[derive(Debug, Clone)]
struct O(usize);
impl PartialEq<O> for L {
    fn eq(&self, o: &O) -> bool {
        answer(self.0, o.0)
    }
}
#[derive(Debug, Clone)]
struct E(usize);
impl PartialEq for E {
    fn eq(&self, o: &E) -> bool {
        let (a, b) = pair(self.0, o.0);
        answer(a, b)
    }
}
/// Tolerances are opaque; only the ones given by the caller may arrive.
#[derive(Debug, Clone, PartialEq)]
struct Eps(String);
impl ApproxEq for E {
    type Epsilon = Eps;
    fn default_epsilon() -> Eps {
        Eps("default epsilon".into())
    }
    fn default_max_relative() -> Eps {
        Eps("default relative".into())
    }
    fn default_max_ulps() -> u32 {
        4242
    }
    fn relative_eq(&self, o: &E, e: Eps, r: Eps) -> bool {
        if e.0 != "given epsilon" || r.0 != "given relative" {
            complain(format!("relative_eq of an entry gets the tolerances {:?} and {:?}", e, r));
        }
        let (a, b) = pair(self.0, o.0);
        answer(a, b)
    }
    fn ulps_eq(&self, o: &E, e: Eps, u: u32) -> bool {
        if e.0 != "given epsilon" || u != 77 {
            complain(format!("ulps_eq of an entry gets the tolerances {:?} and {}", e, u));
        }
        let (a, b) = pair(self.0, o.0);
        answer(a, b)
    }
}
/// An element whose answer need not be reflexive, for an operand compared with itself or with a bitwise copy.
#[derive(Debug, Clone, Copy)]
struct S(usize);
impl PartialEq for S {
    fn eq(&self, o: &S) -> bool {
        answer(self.0, o.0)
    }
}
impl ApproxEq for S {
    type Epsilon = ();
    fn default_epsilon() {}
    fn default_max_relative() {}
    fn default_max_ulps() -> u32 {
        1
    }
    fn relative_eq(&self, o: &S, _: (), _: ()) -> bool {
        answer(self.0, o.0)
    }
    fn ulps_eq(&self, o: &S, _: (), _: u32) -> bool {
        answer(self.0, o.0)
    }
}

/// Every pattern up to 9 entries; above, at most two exceptions from "agree", or one from "disagree".
fn pattern(ctx: &mut Ctx, n: usize) -> Vec<bool> {
    if n <= 9 {
        return (0..n).map(|_| !ctx.flip()).collect();
    }
    let mut a = vec![true; n];
    match ctx.choose(if n <= 81 { 3 } else { 2 }) {
        0 => {
            let k = ctx.choose(n + 1);
            if k > 0 {
                a[k - 1] = false;
            }
        }
        1 => {
            a = vec![false; n];
            let k = ctx.choose(n + 1);
            if k > 0 {
                a[k - 1] = true;
            }
        }
        _ => {
            a[ctx.choose(n)] = false;
            a[ctx.choose(n)] = false;
        }
    }
    a
}

fn vectors<N>(ctx: &mut Ctx)
where
    N: Unsigned + ArrayLen<L> + ArrayLen<O> + ArrayLen<E> + ArrayLen<S>,
{
    let n = <N as Unsigned>::to_usize();
    let a = pattern(ctx, n);
    let want = a.iter().all(|x| *x);
    let (x, y) = (Vector::<L, N>::generate(L), Vector::<O, N>::generate(O));
    let (v, w) = (Vector::<E, N>::generate(E), Vector::<E, N>::generate(|i| E(RIGHT + i)));
    let s = Vector::<S, N>::generate(S);
    let s2 = Vector::<S, N>::generate(S);
    for (what, neg, got) in [
        ("== with itself", false, (&|| s == s) as &dyn Fn() -> bool),
        ("!= with itself", true, &|| s != s),
        ("== with a copy", false, &|| s == s2),
        ("!= with a copy", true, &|| s != s2),
        ("== of different element types", false, &|| x == y),
        ("!= of different element types", true, &|| x != y),
        ("==", false, &|| v == w),
        ("!=", true, &|| v != w),
    ] {
        start(&a);
        let g = got();
        finish(what);
        ctx.step();
        ensure_eq!(g, want != neg, "vector {} with agreeing entries {:?}", what, a);
    }
    ctx.outcome((n, want));
    log!(ctx, "length {} agreement {:?}", n, a);
}

fn matrices<R, C>(ctx: &mut Ctx)
where
    R: Unsigned + ArrayLen<Vector<E, C>> + ArrayLen<Vector<S, C>>,
    C: Unsigned + ArrayLen<E> + ArrayLen<S>,
{
    let (r, c) = (<R as Unsigned>::to_usize(), <C as Unsigned>::to_usize());
    let a = pattern(ctx, r * c);
    let want = a.iter().all(|x| *x);
    let m = Matrix::<E, R, C>::generate(|(i, j)| E(i * c + j));
    let k = Matrix::<E, R, C>::generate(|(i, j)| E(RIGHT + i * c + j));
    let e = || Eps("given epsilon".into());
    let q = || Eps("given relative".into());
    let s = Matrix::<S, R, C>::generate(|(i, j)| S(i * c + j));
    let s2 = Matrix::<S, R, C>::generate(|(i, j)| S(i * c + j));
    for (what, neg, got) in [
        ("== with itself", false, (&|| s == s) as &dyn Fn() -> bool),
        ("!= with itself", true, &|| s != s),
        ("== with a copy", false, &|| s == s2),
        ("!= with a copy", true, &|| s != s2),
        ("relative_eq with itself", false, &|| s.relative_eq(&s, (), ())),
        ("relative_eq with a copy", false, &|| s.relative_eq(&s2, (), ())),
        ("ulps_eq with itself", false, &|| s.ulps_eq(&s, (), 3)),
        ("ulps_eq with a copy", false, &|| s.ulps_eq(&s2, (), 3)),
        ("==", false, &|| m == k),
        ("!=", true, &|| m != k),
        ("relative_eq", false, &|| m.relative_eq(&k, e(), q())),
        ("relative_ne", true, &|| m.relative_ne(&k, e(), q())),
        ("ulps_eq", false, &|| m.ulps_eq(&k, e(), 77)),
        ("ulps_ne", true, &|| m.ulps_ne(&k, e(), 77)),
    ] {
        start(&a);
        let g = got();
        finish(what);
        ctx.step();
        ensure_eq!(g, want != neg, "{} of {}x{} matrices with agreeing entries {:?}", what, r, c, a);
    }
    ensure_eq!(<Matrix<E, R, C> as ApproxEq>::default_epsilon(), E::default_epsilon(), "default epsilon of {}x{}", r, c);
    ensure_eq!(<Matrix<E, R, C> as ApproxEq>::default_max_relative(), E::default_max_relative(), "default relative tolerance of {}x{}", r, c);
    ensure_eq!(<Matrix<E, R, C> as ApproxEq>::default_max_ulps(), E::default_max_ulps(), "default ULPs of {}x{}", r, c);
    ctx.outcome((r, c, want));
    log!(ctx, "{}x{} agreement {:?}", r, c, a);
}

/// Real element types (which the standard library may compare bytewise).
trait Bits: PartialEq + Copy + std::fmt::Debug + 'static {
    const V: &'static [Self];
}
impl Bits for u8 {
    const V: &'static [u8] = &[0, 1, 0x80, 255];
}
impl Bits for i32 {
    const V: &'static [i32] = &[0, 1, -1, 1 << 30, i32::MIN];
}
impl Bits for f64 {
    const V: &'static [f64] = &[0.0, -0.0, 1.0, f64::NAN, f64::INFINITY, f64::MIN_POSITIVE];
}
fn plain<T, R, C>(ctx: &mut Ctx)
where
    T: Bits,
    R: Unsigned + ArrayLen<Vector<T, C>>,
    C: Unsigned + ArrayLen<T>,
{
    let (r, c) = (<R as Unsigned>::to_usize(), <C as Unsigned>::to_usize());
    let n = r * c;
    let at = if n == 0 { 0 } else { ctx.choose(n) };
    let (x, y, z) = (*ctx.pick(T::V), *ctx.pick(T::V), *ctx.pick(T::V));
    let m = Matrix::<T, R, C>::generate(|(i, j)| if i * c + j == at { x } else { z });
    let k = Matrix::<T, R, C>::generate(|(i, j)| if i * c + j == at { y } else { z });
    let want = n == 0 || x == y && (n == 1 || z == z);
    ctx.step();
    ensure_eq!(m == k, want, "{:?} == {:?}", m, k);
    ensure_eq!(m != k, !want, "{:?} != {:?}", m, k);
    let reflexive = (0..n).all(|e| e != at || x == x) && (n < 2 || z == z);
    ensure_eq!(m == m, reflexive, "{:?} == itself", m);
    ensure_eq!(m == m.clone(), reflexive, "{:?} == its clone", m);
    for i in 0..r {
        let (a, b) = (m.rows_iter().nth(i).unwrap(), k.rows_iter().nth(i).unwrap());
        let w = (0..c).all(|j| a[j] == b[j]);
        ensure_eq!(a == b, w, "{:?} == {:?}", a, b);
        ensure_eq!(a != b, !w, "{:?} != {:?}", a, b);
    }
    ctx.outcome((r, c, want));
    log!(ctx, "{:?} == {:?}: {}", m, k, want);
}

/// Whether a type claims total equality (the inherent method wins if its bound holds).
struct Probe<T>(PhantomData<T>);
impl<T: Eq> Probe<T> {
    fn claims(&self) -> bool {
        true
    }
}
trait Not {
    fn claims(&self) -> bool;
}
impl<T> Not for Probe<T> {
    fn claims(&self) -> bool {
        false
    }
}

/// Every kind of element that generic code can tell apart: equal, or different at one position.
fn kind_length<Z: Slot, N: ArrayLen<kinds::F<Z>>>(ctx: &mut Ctx) {
    kinds::reset();
    let n = <N as Unsigned>::to_usize();
    let at = ctx.choose(n + 1);
    let d = *ctx.pick(&[1, 128, 250]);
    let v = Vector::<kinds::F<Z>, N>::generate(|i| kinds::F::new(value(0, i)));
    let w = Vector::<kinds::F<Z>, N>::generate(|i| kinds::F::new(value(0, i) + if i == at { d } else { 0 }));
    ctx.step();
    ensure_eq!((v == w, v != w, w == v, v == v.clone()), (at >= n, at < n, at >= n, true), "equality of length {}, different at {}", n, at);
    drop((v, w));
    kinds::settle("end");
}
fn kind_shape<Z: Slot, R, C>(ctx: &mut Ctx)
where
    R: Unsigned + ArrayLen<Vector<kinds::F<Z>, C>>,
    C: Unsigned + ArrayLen<kinds::F<Z>>,
{
    kinds::reset();
    let (r, c) = (<R as Unsigned>::to_usize(), <C as Unsigned>::to_usize());
    let n = r * c;
    let at = ctx.choose(n + 1);
    let d = *ctx.pick(&[1, 7, 100]);
    let w = |i: usize| value(0, i) / 2;
    let v = Matrix::<kinds::F<Z>, R, C>::generate(|(i, j)| kinds::F::new(w(i * c + j)));
    let k = Matrix::<kinds::F<Z>, R, C>::generate(|(i, j)| kinds::F::new(w(i * c + j) + if i * c + j == at { d } else { 0 }));
    ctx.step();
    ensure_eq!((v == k, v != k, k == v, v == v.clone()), (at >= n, at < n, at >= n, true), "equality of {}x{}, different at {}", r, c, at);
    for e in [0, 1, 6, 7, 100] {
        ensure_eq!((v.relative_eq(&k, e, 0), k.relative_ne(&v, e, 0)), (at >= n || d <= e, at < n && d > e), "relative_eq of {}x{}, {} apart at {}", r, c, d, at);
        ensure_eq!((v.ulps_eq(&k, e, 0), k.ulps_ne(&v, 0, e as u32)), (at >= n || d <= e, at < n && d > e), "ulps_eq of {}x{}, {} apart at {}", r, c, d, at);
    }
    drop((v, k));
    kinds::settle("end");
}

fn main() {
    let ck = Check::new("C16");
    macro_rules! table {
        ($name:expr, $lists:ident, $push:ident, $f:ident $(, $x:ty)*; $b:expr) => {{
            let mut t: Table = vec![];
            $lists!($push, t, $f $(, $x)*);
            ck.bound($name, $b);
            explore_table(&ck, $name, &t);
        }};
    }
    table!("vectors", for_lens, push_len, vectors; "every length 0..=32; every agreement pattern up to 9 elements, up to two disagreements or one agreement above");
    table!("matrices", for_mid_shapes, push_shape, matrices; "shapes 0x0..9x9; every agreement pattern up to 9 entries, up to two disagreements or one agreement above");
    table!("large matrices", for_large_shapes, push_shape, matrices; "selected shapes up to 32x32; up to one disagreement or one agreement");
    macro_rules! plain_shape {
        ($R:ident, $C:ident, $t:ident, $f:ident) => {
            push_shape_of!($R, $C, $t, $f, u8);
            push_shape_of!($R, $C, $t, $f, i32);
            push_shape_of!($R, $C, $t, $f, f64);
        };
    }
    table!("numbers", for_small_shapes, plain_shape, plain; "u8, i32, f64 (with NaN and both zeros), shapes 0x0..4x4, every pair of values at every position");

    let mut eq: Vec<(String, bool, bool)> = vec![];
    macro_rules! eq_len {
        ($N:ident, $n:expr) => {
            eq.push((format!("Vector<f64, {}>", stringify!($N)), Probe::<Vector<f64, $N>>(PhantomData).claims(), false));
            eq.push((format!("Vector<i32, {}>", stringify!($N)), Probe::<Vector<i32, $N>>(PhantomData).claims(), true));
            eq.push((format!("Vector<Vector<f32, {0}>, {0}>", stringify!($N)), Probe::<Vector<Vector<f32, $N>, $N>>(PhantomData).claims(), false));
        };
    }
    for_lens!(eq_len);
    macro_rules! eq_shape {
        ($R:ident, $C:ident) => {
            eq.push((format!("Matrix<f64, {}, {}>", stringify!($R), stringify!($C)), Probe::<Matrix<f64, $R, $C>>(PhantomData).claims(), false));
            eq.push((format!("Matrix<E, {}, {}>", stringify!($R), stringify!($C)), Probe::<Matrix<E, $R, $C>>(PhantomData).claims(), false));
            eq.push((format!("Matrix<i32, {}, {}>", stringify!($R), stringify!($C)), Probe::<Matrix<i32, $R, $C>>(PhantomData).claims(), true));
        };
    }
    for_mid_shapes!(eq_shape);
    ck.bound("total equality", "Eq probed for every length 0..=32 and every shape 0x0..9x9 with elements that do and do not claim it");
    ck.range("total equality", eq.len() as u64, |ctx, i| {
        let (what, claims, may) = &eq[i as usize];
        ctx.step();
        ensure!(!claims || *may, "{} claims total equality although its elements do not", what);
        ctx.outcome(claims);
        log!(ctx, "{}: Eq {}", what, claims);
    });
    let mut t: Table = vec![];
    for_kinds!(push_kind_lens, t, kind_length);
    for_kinds!(push_kind_shapes, t, kind_shape);
    ck.bound("kinds", format!("equal, or different at any one position, for {}, {} and shapes {}", kinds::KINDS, kinds::LENS, kinds::SHAPES));
    explore_table(&ck, "kinds", &t);
    ck.finish();
}
