//! C21: operations do not influence each other.  Every pair of operations is interleaved at the calls of caller-supplied code
//! (the only places where an operation can be told apart from an atomic step by what it exchanges with its caller), on two
//! threads under a scheduler that decides every switch, nested on one thread, and one after another.
use approx::ApproxEq;
use mc::shapes::*;
use mc::*;
use num::{Bounded, Complex, Num, One, Signed, Zero};
use rowcol::prelude::*;
use rowcol_mc as mc;
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::fmt;
use std::ops::*;
use std::rc::Rc;
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError, Sender};
use std::sync::Arc;
use std::time::Duration;

thread_local! {
    static POINT: RefCell<Option<Box<dyn FnMut()>>> = const { RefCell::new(None) };
}
/// A place where another operation may run: every call the library makes to its caller's code.
fn point() {
    let f = POINT.try_with(|p| p.try_borrow_mut().ok().and_then(|mut p| p.take())).ok().flatten();
    if let Some(mut f) = f {
        f();
        let _ = POINT.try_with(|p| {
            let mut p = p.borrow_mut();
            if p.is_none() {
                *p = Some(f);
            }
        });
    }
}
/// Runs `g` with `f` called at every point.
fn with_points<T>(f: impl FnMut() + 'static, g: impl FnOnce() -> T) -> T {
    let old = POINT.with(|p| p.borrow_mut().replace(Box::new(f)));
    let r = g();
    POINT.with(|p| *p.borrow_mut() = old);
    r
}

/// An element whose every operation is a scheduling point: an integer modulo a prime.
const Q: i64 = 10007;
#[derive(PartialOrd)]
struct P(i64);
impl Clone for P {
    fn clone(&self) -> P {
        point();
        P(self.0)
    }
}
impl Drop for P {
    fn drop(&mut self) {
        point();
        self.0 = -1;
    }
}
impl fmt::Debug for P {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        point();
        write!(f, "{}", self.0)
    }
}
impl fmt::Display for P {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        point();
        f.pad(&self.0.to_string()[..1 + (self.0 % 2) as usize])
    }
}
impl Default for P {
    fn default() -> P {
        point();
        P(7)
    }
}
impl PartialEq for P {
    fn eq(&self, o: &P) -> bool {
        point();
        self.0 == o.0
    }
}
impl Eq for P {}
impl Ord for P {
    fn cmp(&self, o: &P) -> Ordering {
        point();
        self.0.cmp(&o.0)
    }
}
fn inv(a: i64) -> i64 {
    let (mut r, mut b, mut e) = (1, a, Q - 2);
    while e > 0 {
        if e % 2 == 1 {
            r = r * b % Q;
        }
        b = b * b % Q;
        e /= 2;
    }
    r
}
macro_rules! ops {
    ($($tr:ident $f:ident $tra:ident $fa:ident |$a:ident, $b:ident| $e:expr;)*) => { $(
        impl $tr for P { type Output = P; fn $f(self, o: P) -> P { point(); let ($a, $b) = (self.0, o.0); P(($e).rem_euclid(Q)) } }
        impl<'a> $tr<&'a P> for P { type Output = P; fn $f(self, o: &P) -> P { point(); let ($a, $b) = (self.0, o.0); P(($e).rem_euclid(Q)) } }
        impl<'b> $tr<P> for &'b P { type Output = P; fn $f(self, o: P) -> P { point(); let ($a, $b) = (self.0, o.0); P(($e).rem_euclid(Q)) } }
        impl<'a, 'b> $tr<&'a P> for &'b P { type Output = P; fn $f(self, o: &P) -> P { point(); let ($a, $b) = (self.0, o.0); P(($e).rem_euclid(Q)) } }
        impl $tra for P { fn $fa(&mut self, o: P) { point(); let ($a, $b) = (self.0, o.0); self.0 = ($e).rem_euclid(Q) } }
    )* };
}
ops! {
    Add add AddAssign add_assign |a, b| a + b; Sub sub SubAssign sub_assign |a, b| a - b; Mul mul MulAssign mul_assign |a, b| a * b;
    Div div DivAssign div_assign |a, b| a * inv(b); Rem rem RemAssign rem_assign |a, b| a % (b + 1);
}
impl Neg for P {
    type Output = P;
    fn neg(self) -> P {
        point();
        P((Q - self.0) % Q)
    }
}
impl Zero for P {
    fn zero() -> P {
        point();
        P(0)
    }
    fn is_zero(&self) -> bool {
        point();
        self.0 == 0
    }
}
impl One for P {
    fn one() -> P {
        point();
        P(1)
    }
}
impl Num for P {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<P, ()> {
        Err(())
    }
}
impl Signed for P {
    fn abs(&self) -> P {
        P(self.0)
    }
    fn abs_sub(&self, o: &P) -> P {
        P((self.0 - o.0).max(0))
    }
    fn signum(&self) -> P {
        P(1)
    }
    fn is_positive(&self) -> bool {
        true
    }
    fn is_negative(&self) -> bool {
        false
    }
}
impl Bounded for P {
    fn min_value() -> P {
        point();
        P(0)
    }
    fn max_value() -> P {
        point();
        P(Q - 1)
    }
}
impl ApproxEq for P {
    type Epsilon = i64;
    fn default_epsilon() -> i64 {
        1
    }
    fn default_max_relative() -> i64 {
        1
    }
    fn default_max_ulps() -> u32 {
        1
    }
    fn relative_eq(&self, o: &P, e: i64, _: i64) -> bool {
        point();
        (self.0 - o.0).abs() <= e
    }
    fn ulps_eq(&self, o: &P, e: i64, u: u32) -> bool {
        point();
        (self.0 - o.0).abs() <= e + u as i64
    }
}

/// The operands: one set per thread, or one shared by both.
struct In {
    s: i64,
    v: Vector<P, U4>,
    w: Vector<P, U4>,
    x: Vector<P, U3>,
    m: Matrix<P, U2, U2>,
    k: Matrix<P, U2, U2>,
    r: Matrix<P, U2, U3>,
    t: Matrix<P, U3, U2>,
    g: Matrix<P, U3, U3>,
    q: Matrix<P, U4, U4>,
    h: Matrix<P, U5, U5>,
}
fn val(s: i64, k: usize) -> i64 {
    (1 + s * 37 + (k as i64 * 53 + s * 11) * (k as i64 + 5 - s) % 97).rem_euclid(Q)
}
fn inputs(s: i64) -> In {
    In {
        s,
        v: Vector::generate(|i| P(val(s, i))),
        w: Vector::generate(|i| P(val(s, 3 * i + 1))),
        x: Vector::generate(|i| P(val(s, 2 * i + 5))),
        m: Matrix::generate(|(i, j)| P(val(s, 2 * i + j))),
        k: Matrix::generate(|(i, j)| P(val(s, 7 * i + j + 2))),
        r: Matrix::generate(|(i, j)| P(val(s, 3 * i + j + 4))),
        t: Matrix::generate(|(i, j)| P(val(s, 2 * i + j + 9))),
        g: Matrix::generate(|(i, j)| P(val(s, 3 * i + j * j))),
        // zero pivots included
        q: Matrix::generate(|(i, j)| P(if i == j && i < 2 { 0 } else { val(s, 4 * i + j) })),
        h: Matrix::generate(|(i, j)| P(val(s, 5 * i + j * (i + 1)))),
    }
}
fn raw(a: &In) -> Vec<i64> {
    let mut o: Vec<i64> = vec![];
    for v in [&a.v, &a.w] {
        o.extend(v.iter().map(|x| x.0));
    }
    o.extend(a.x.iter().map(|x| x.0));
    macro_rules! m { ($($f:ident)*) => { $( for r in a.$f.rows_iter_ref() { o.extend(r.iter().map(|x| x.0)); } )* }; }
    m!(m k r t g q h);
    o
}

type Out = Vec<i64>;
/// Values without scheduling points.
trait Show {
    fn show(&self) -> Out;
}
impl Show for P {
    fn show(&self) -> Out {
        vec![self.0]
    }
}
impl<N: rowcol::vector::ArrayLen<P>> Show for Vector<P, N> {
    fn show(&self) -> Out {
        self.iter().map(|x| x.0).collect()
    }
}
impl<R, C> Show for Matrix<P, R, C>
where
    R: rowcol::vector::ArrayLen<Vector<P, C>>,
    C: rowcol::vector::ArrayLen<P>,
{
    fn show(&self) -> Out {
        self.rows_iter_ref().flat_map(|r| r.iter().map(|x| x.0)).collect()
    }
}
impl Show for i64 {
    fn show(&self) -> Out {
        vec![*self]
    }
}
impl Show for usize {
    fn show(&self) -> Out {
        vec![*self as i64]
    }
}
impl Show for bool {
    fn show(&self) -> Out {
        vec![*self as i64]
    }
}
impl Show for String {
    fn show(&self) -> Out {
        self.bytes().map(|b| b as i64).collect()
    }
}
impl<T: Show> Show for Vec<T> {
    fn show(&self) -> Out {
        self.iter().flat_map(|x| x.show()).collect()
    }
}
impl<T: Show> Show for Option<T> {
    fn show(&self) -> Out {
        self.as_ref().map_or(vec![-7], |x| x.show())
    }
}
impl<A: Show, B: Show> Show for (A, B) {
    fn show(&self) -> Out {
        let mut a = self.0.show();
        a.extend(self.1.show());
        a
    }
}

type Op = (&'static str, fn(&In) -> Out);
macro_rules! list {
    ($($name:expr => |$i:ident| $e:expr;)*) => { vec![$( ($name, (|$i: &In| Show::show(&$e)) as fn(&In) -> Out) ),*] };
}
/// A callback that is a scheduling point.
fn cb<T>(x: T) -> T {
    point();
    x
}
fn operations() -> Vec<Op> {
    list! {
        "clone of a vector" => |i| i.v.clone();
        "clone of a matrix" => |i| i.r.clone();
        "vector default" => |_i| Vector::<P, U4>::default();
        "matrix default" => |_i| Matrix::<P, U2, U3>::default();
        "vector generate" => |i| Vector::<P, U4>::generate(|k| cb(P(val(i.s, k))));
        "matrix generate" => |i| Matrix::<P, U3, U2>::generate(|(a, b)| cb(P(val(i.s, 3 * a + b))));
        "vector zero" => |_i| (Vector::<P, U4>::zero(), Matrix::<P, U2, U2>::zero());
        "bounds" => |_i| (Vector::<P, U3>::min_value(), Matrix::<P, U2, U2>::max_value());
        "identity" => |_i| (Matrix::<P, U3, U3>::identity(), <Matrix<P, U2, U2> as One>::one());
        "diag" => |i| Matrix::<P, U3, U3>::diag([P(i.s), P(2), P(3 + i.s)]);
        "collect" => |i| (0..4).map(|k| cb(P(val(i.s, k)))).collect::<Vector<P, U4>>();
        "collect unhinted" => |i| (0..9).filter(|k| k % 2 == 0).map(|k| cb(P(val(i.s, k)))).take(4).collect::<Vector<P, U4>>();
        "is_zero" => |i| (i.v.is_zero(), (Matrix::<P, U2, U2>::generate(|_| P(0)).is_zero(), i.m.is_zero()));
        "== of vectors" => |i| (i.v == i.w, i.v == i.v);
        "== of matrices" => |i| (i.m == i.k, i.m == i.m);
        "relative_eq" => |i| (i.m.relative_eq(&i.m, i.s, 0), i.m.ulps_eq(&i.k, 1, 5));
        "Debug" => |i| format!("{:?} {:?}", i.v, i.r);
        "Display" => |i| format!("{}", i.t);
        "vector + vector" => |i| &i.v + &i.w;
        "vector - vector" => |i| i.v.clone() - &i.w;
        "vector +=" => |i| { let mut a = i.v.clone(); a += i.w.clone(); a };
        "vector -=" => |i| { let mut a = i.v.clone(); a -= i.w.clone(); a };
        "vector * scalar" => |i| i.v.clone() * P(3 + i.s);
        "vector *=, /=" => |i| { let mut a = i.v.clone(); a *= P(3 + i.s); a /= P(5); a };
        "vector / scalar" => |i| i.v.clone() / P(3 + i.s);
        "vector negated" => |i| -i.v.clone();
        "matrix + matrix" => |i| &i.m + &i.k;
        "matrix - matrix" => |i| &i.m - i.k.clone();
        "matrix +=" => |i| { let mut a = i.m.clone(); a += i.k.clone(); a };
        "matrix -=" => |i| { let mut a = i.m.clone(); a -= i.k.clone(); a };
        "matrix * scalar" => |i| i.r.clone() * &P(3 + i.s);
        "matrix *=, /= scalar" => |i| { let mut a = i.m.clone(); a *= P(3 + i.s); a /= P(5); a };
        "matrix / scalar" => |i| i.r.clone() / P(3 + i.s);
        "matrix negated" => |i| -i.r.clone();
        "product" => |i| &i.r * &i.t;
        "product by value" => |i| i.m.clone() * i.k.clone();
        "matrix *=" => |i| { let mut a = i.m.clone(); a *= i.k.clone(); a };
        "matrix * vector" => |i| i.g.clone() * &i.x;
        "dot" => |i| i.v.dot(&i.w);
        "cross" => |i| i.x.cross(&i.x.clone());
        "sums" => |i| (i.v.sum(), i.r.sum());
        "max, min" => |i| (i.v.max(), i.v.min());
        "max_by, min_by" => |i| (i.v.max_by(|a, b| cb((a.0 % 7).cmp(&(b.0 % 7)))), i.v.min_by(|a, b| cb((a.0 % 5).cmp(&(b.0 % 5)))));
        "matrix max, min" => |i| (i.g.max(), i.g.min());
        "matrix max_by" => |i| (i.m.max_by(|a, b| cb((a.0 % 7).cmp(&(b.0 % 7)))), i.m.min_by(|a, b| cb((a.0 % 5).cmp(&(b.0 % 5)))));
        "clamped" => |i| (i.v.clone().clamped(P(20), P(60)), i.m.clone().clamped(P(30), P(40)));
        "clamp" => |i| { let (mut a, mut b) = (i.v.clone(), i.m.clone()); a.clamp(P(20), P(60)); b.clamp(P(30), P(40)); (a, b) };
        "map" => |i| i.r.clone().map(|(a, b), x| cb(P(x.0 + (10 * a + b) as i64)));
        "all, any" => |i| (i.m.all(|_, x| cb(x.0 >= 0)), i.m.any(|(a, b), x| cb(a + b == 2 && x.0 > i.s)));
        // the two sets of operands come to opposite results
        "all, first false" => |i| i.m.all(|(a, b), _| cb(a + b < 2 + i.s as usize));
        "all, first true" => |i| i.r.all(|(a, b), _| cb(a + b + 2 * i.s as usize <= 3));
        "any, first true" => |i| i.m.any(|(a, b), _| cb(a + b == 2 + i.s as usize));
        "any, first false" => |i| i.r.any(|(a, b), _| cb(a + b + 2 * i.s as usize >= 4));
        "==, first true" => |i| { let (mut a, mut b) = (i.v.clone(), i.m.clone()); a[2].0 += i.s; b[(1, 0)].0 += i.s; (a == i.v, b == i.m) };
        "==, first false" => |i| { let (mut a, mut b) = (i.v.clone(), i.m.clone()); a[1].0 += 1 - i.s; b[(1, 1)].0 += 1 - i.s; (a == i.v, b == i.m) };
        "is_zero, first true" => |i| (Vector::<P, U3>::generate(|k| P(k as i64 / 2 * i.s)).is_zero(), Matrix::<P, U2, U2>::generate(|(k, _)| P(k as i64 * i.s)).is_zero());
        "is_zero, first false" => |i| (Vector::<P, U3>::generate(|k| P(k as i64 / 2 * (1 - i.s))).is_zero(), Matrix::<P, U2, U2>::generate(|(k, _)| P(k as i64 * (1 - i.s))).is_zero());
        "relative_eq, first true" => |i| { let mut b = i.m.clone(); b[(1, 0)].0 += 9 * i.s; (b.relative_eq(&i.m, 2, 0), b.ulps_eq(&i.m, 1, 1)) };
        "relative_eq, first false" => |i| { let mut b = i.m.clone(); b[(1, 0)].0 += 9 - 9 * i.s; (b.relative_eq(&i.m, 2, 0), b.ulps_eq(&i.m, 1, 1)) };
        "inverse, first none" => |i| Matrix::<P, U2, U2>::generate(|(a, b)| P((1 + a as i64) * (1 + b as i64 * (1 + a as i64 * i.s)))).inverse();
        "inverse, first some" => |i| Matrix::<P, U3, U3>::generate(|(a, b)| P(1 + (a == b) as i64 * (1 - i.s))).inverse();
        "transposed" => |i| i.r.transposed();
        "transpose" => |i| { let mut a = i.g.clone(); a.transpose(); a };
        "conjugate" => |i| { let c = Matrix::<Complex<P>, U2, U2>::generate(|(a, b)| Complex::new(P(val(i.s, a)), P(val(i.s, b)))).conjugate(); (c[(0, 1)].im.0, c[(1, 0)].re.0) };
        "pow" => |i| i.m.pow(5);
        "determinants" => |i| (i.m.determinant(), i.g.determinant());
        "determinant of 4x4" => |i| i.q.determinant();
        "cofactor" => |i| (i.g.cofactor((1, 2)), i.q.cofactor((2, 0)));
        "inverse of 2x2" => |i| i.m.inverse();
        "inverse of 3x3" => |i| i.g.inverse();
        "inverse of 4x4" => |i| i.q.inverse();
        "determinant of 5x5" => |i| i.h.determinant();
        "into_iter" => |i| i.v.clone().into_iter().map(cb).collect::<Vec<_>>();
        "into_iter backwards" => |i| i.v.clone().into_iter().rev().map(cb).collect::<Vec<_>>();
        "into_iter from both ends" => |i| { let mut it = i.v.clone().into_iter(); let a = cb(it.next()); let b = cb(it.nth_back(1)); (a, (b, it.len())) };
        "chunks" => |i| i.v.clone().into_chunks::<U2>().map(cb).collect::<Vec<_>>();
        "chunks backwards" => |i| i.v.clone().into_chunks::<U2>().rev().map(cb).collect::<Vec<_>>();
        "reshape" => |i| Matrix::<P, U2, U2>::from(i.v.clone());
        "rows" => |i| i.r.rows_iter().map(cb).collect::<Vec<_>>();
        "columns" => |i| i.r.cols_iter().rev().map(cb).collect::<Vec<_>>();
        "columns by reference" => |i| i.r.cols_iter_ref().map(|c| cb(c.map(|x| cb(x.0)).sum::<i64>())).collect::<Vec<_>>();
        "rows by reference" => |i| i.r.rows_iter_ref().rev().map(|c| cb(c.iter().map(|x| cb(x.0)).sum::<i64>())).collect::<Vec<_>>();
        "indices" => |i| { let mut a = i.v.clone(); let mut b = i.r.clone(); a[1] = P(cb(5)); b[(1, 2)] = P(cb(6)); (a[2].0 + cb(a[1].0), b[(1, 2)].0 + cb(b[(0, 1)].0)) };
        "slices" => |i| { let mut a = i.v.clone(); a.as_slice_mut().sort_by(|x, y| cb(x.0.cmp(&y.0))); for x in a.iter_mut() { x.0 += cb(1); } a };
        "norm" => |i| { let f = Vector::<f64, U4>::generate(|k| cb(val(i.s, k)) as f64 / 8.0); (f.norm().to_bits() as i64, f.normalized().iter().map(|x| x.to_bits() as i64).collect::<Vec<_>>()) };
    }
}

fn outcome(f: fn(&In) -> Out, i: &In) -> Out {
    match catch(|| f(i)) {
        Ok(v) => v,
        Err(_) => vec![-99],
    }
}
/// Result and number of points of an operation that runs alone.
fn alone(f: fn(&In) -> Out, i: &In) -> (Out, usize) {
    let n = Rc::new(Cell::new(0));
    let m = n.clone();
    let r = with_points(move || m.set(m.get() + 1), || outcome(f, i));
    (r, n.get())
}

enum Ev {
    Yield,
    Done(Out),
}
struct Th {
    go: Sender<usize>,
    ev: Receiver<Ev>,
    done: Option<Out>,
}
impl Th {
    fn start(f: fn(&In) -> Out, i: Arc<In>) -> Th {
        let (go, wait) = channel::<usize>();
        let (tell, ev) = channel();
        let told = tell.clone();
        std::thread::spawn(move || {
            let Ok(mut quota) = wait.recv() else { return };
            let p = move || {
                if quota > 0 {
                    quota -= 1;
                    return;
                }
                let _ = told.send(Ev::Yield);
                quota = wait.recv().unwrap_or(usize::MAX).saturating_sub(1);
            };
            let r = with_points(p, || outcome(f, &i));
            drop(i);
            let _ = tell.send(Ev::Done(r));
        });
        Th { go, ev, done: None }
    }
    /// Lets the thread pass `n` points.
    fn run(&mut self, n: usize, name: &str) {
        if self.done.is_some() {
            return;
        }
        let _ = self.go.send(n);
        match self.ev.recv_timeout(Duration::from_secs(20)) {
            Ok(Ev::Yield) => {}
            Ok(Ev::Done(r)) => self.done = Some(r),
            Err(RecvTimeoutError::Timeout) => fail(format!("{} waits for the other operation (or never ends)", name)),
            Err(RecvTimeoutError::Disconnected) => fail(format!("the thread of {} died", name)),
        }
    }
}

struct Base {
    ops: Vec<Op>,
    /// per operand set
    of: [Vec<(Out, usize)>; 2],
}
fn slices(n: usize, all: usize) -> Vec<usize> {
    if n <= all {
        return (1..=n).collect();
    }
    if cfg!(miri) {
        return vec![n.div_ceil(2)];
    }
    let mut v = if all > 6 { vec![1, 2, 3, n / 4, n / 3, n / 2, 2 * n / 3, 3 * n / 4, n - 2, n - 1, n] } else { vec![1, 2, n / 3, n / 2, n - 1, n] };
    v.dedup();
    v
}

/// Two threads: the first passes some points, then the second some, and so on.
fn threads(ctx: &mut Ctx, b: &Base, slice_count: usize, all: usize) {
    let x = ctx.choose(b.ops.len());
    let y = if cfg!(miri) { x } else { ctx.choose(b.ops.len()) };
    let shared = ctx.flip();
    let (sx, sy) = (0, if shared { 0 } else { 1 });
    let ix = Arc::new(inputs(sx as i64));
    let iy = if shared { ix.clone() } else { Arc::new(inputs(1)) };
    let (name, other) = (b.ops[x].0, b.ops[y].0);
    log!(ctx, "thread 1: {}; thread 2: {}, {} operands", name, other, if shared { "the same" } else { "other" });
    let (wx, wy) = (&b.of[sx][x], &b.of[sy][y]);
    let mut t = [Th::start(b.ops[x].1, ix.clone()), Th::start(b.ops[y].1, iy.clone())];
    let mut left = [wx.1, wy.1];
    for k in 0..slice_count {
        let who = k % 2;
        if left[who] == 0 {
            break;
        }
        let s = slices(left[who], all);
        let n = s[ctx.choose(s.len())];
        log!(ctx, "thread {} passes {} calls", who + 1, n);
        t[who].run(n, if who == 0 { name } else { other });
        left[who] -= n;
        ctx.step();
    }
    let who = slice_count % 2;
    t[who].run(usize::MAX, if who == 0 { name } else { other });
    t[1 - who].run(usize::MAX, if who == 0 { other } else { name });
    ctx.step();
    let (gx, gy) = (t[0].done.take(), t[1].done.take());
    if gx.as_ref() != Some(&wx.0) {
        fail(format!("{} interleaved with {}: {:?}, alone {:?}", name, other, gx, wx.0));
    }
    if gy.as_ref() != Some(&wy.0) {
        fail(format!("{} interleaved with {}: {:?}, alone {:?}", other, name, gy, wy.0));
    }
    ensure_eq!(raw(&ix), raw(&inputs(sx as i64)), "operands of {} after {}", name, other);
    ctx.outcome((x, y, shared));
}

/// One operation inside a call that another one makes.
fn nested(ctx: &mut Ctx, b: &Base) {
    let x = ctx.choose(b.ops.len());
    let y = ctx.choose(b.ops.len());
    let n = b.of[0][x].1;
    if n == 0 {
        return;
    }
    let at = ctx.choose(n + 1);
    let (name, other) = (b.ops[x].0, b.ops[y].0);
    log!(ctx, "{} within {}, {}", other, name, if at == n { "in every call".into() } else { format!("in call {}", at) });
    let (f, ix, iy) = (b.ops[y].1, inputs(0), inputs(1));
    let (k, seen) = (Cell::new(0), Rc::new(RefCell::new(vec![])));
    let s = seen.clone();
    let r = with_points(
        move || {
            if at == n || k.get() == at {
                s.borrow_mut().push(outcome(f, &iy));
            }
            k.set(k.get() + 1);
        },
        || outcome(b.ops[x].1, &ix),
    );
    ctx.step();
    ensure_eq!(r, b.of[0][x].0, "{} with {} inside", name, other);
    let seen = std::mem::take(&mut *seen.borrow_mut());
    ensure_eq!(seen.len(), if at == n { n } else { 1 }, "calls of {} with {} inside", name, other);
    for r in seen {
        ensure_eq!(r, b.of[1][y].0, "{} inside {}", other, name);
    }
    ensure_eq!(raw(&ix), raw(&inputs(0)), "operands of {} after {}", name, other);
    ctx.outcome((x, y));
}

/// One after another.
fn sequence(ctx: &mut Ctx, b: &Base, depth: usize) {
    let ins = [inputs(0), inputs(1)];
    for _ in 0..depth {
        let x = ctx.choose(b.ops.len());
        let s = ctx.choose(2);
        log!(ctx, "{}, operands {}", b.ops[x].0, s);
        ensure_eq!(outcome(b.ops[x].1, &ins[s]), b.of[s][x].0, "{}", b.ops[x].0);
        ctx.step();
        ctx.outcome((x, s));
    }
    for (s, i) in ins.iter().enumerate() {
        ensure_eq!(raw(i), raw(&inputs(s as i64)), "operands afterwards");
    }
}

/// The same operation again and again.
fn repeated(ctx: &mut Ctx, b: &Base, times: usize) {
    let x = ctx.choose(b.ops.len());
    let s = ctx.choose(2);
    let i = inputs(s as i64);
    log!(ctx, "{}, {} times", b.ops[x].0, times);
    for k in 0..times {
        ensure_eq!(outcome(b.ops[x].1, &i), b.of[s][x].0, "{}, time {}", b.ops[x].0, k);
    }
    ctx.step();
    ctx.outcome((x, s));
}

fn main() {
    let ck = Check::new("C21");
    let mut ops = operations();
    if cfg!(miri) {
        // slow ones; Miri's floats are not deterministic
        ops.retain(|o| !["inverse of 4x4", "determinant of 5x5", "pow", "norm"].contains(&o.0));
    }
    let of = [0, 1].map(|s| ops.iter().map(|o| alone(o.1, &inputs(s))).collect::<Vec<_>>());
    let b = Base { ops, of };
    let n = b.ops.len();
    if std::env::var("C21_POINTS").is_ok() {
        for (i, o) in b.ops.iter().enumerate() {
            println!("{} {} {:?}", o.0, b.of[0][i].1, b.of[0][i].0);
        }
    }
    if cfg!(miri) {
        ck.bound("threads", "every operation on two threads, separate and shared operands, one switch in the middle");
        ck.explore("threads", |ctx| threads(ctx, &b, 1, 0));
        return ck.finish();
    }
    ck.bound("one after another", format!("every sequence of 2 (thorough: 3) of {} operations on two sets of operands", n));
    ck.explore("one after another", |ctx| sequence(ctx, &b, if ck.thorough { 3 } else { 2 }));
    ck.bound("again and again", "every operation 5000 times in a row");
    ck.explore("again and again", |ctx| repeated(ctx, &b, 5000));
    ck.bound("nested", format!("every pair of {} operations, the second within each call that the first makes, and within all of them", n));
    ck.explore("nested", |ctx| nested(ctx, &b));
    let (k, all) = if ck.thorough { (3, 8) } else { (2, 4) };
    ck.bound(
        "threads",
        format!(
            "every pair of {} operations on two threads, separate and shared operands, {} slices of every length up to {} calls (above that {} lengths), then to the end",
            n, k, all, slices(100, all).len()
        ),
    );
    ck.explore("threads", |ctx| threads(ctx, &b, k, all));
    ck.finish();
}
