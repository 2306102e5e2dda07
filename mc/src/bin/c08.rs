//! C08: element-wise arithmetic over the free term algebra.  The library is generic and cannot inspect terms, so the
//! result of one execution on distinct variables shows what every operator does for all values of all element types.
use mc::kinds::{self, *};
use mc::shapes::*;
use mc::term::*;
use mc::*;
use rowcol::prelude::*;
use rowcol::typenum::Unsigned;
use rowcol::vector::ArrayLen;
use rowcol_mc as mc;
use std::rc::Rc;

type T = Rc<E>;

fn va<N: ArrayLen<A>>() -> Vector<A, N> {
    Vector::generate(|i| A(leaf("a", i)))
}
fn va2<N: ArrayLen<A>>() -> Vector<A, N> {
    Vector::generate(|i| A(leaf("x", i)))
}
fn vb<N: ArrayLen<B>>() -> Vector<B, N> {
    Vector::generate(|i| B(leaf("b", i)))
}
fn vb2<N: ArrayLen<B>>() -> Vector<B, N> {
    Vector::generate(|i| B(leaf("y", i)))
}

/// Compares the terms of a result, entry by entry, and the number of element operations that were applied.
fn expect(what: &str, got: Vec<T>, n: usize, want: impl Fn(usize) -> T) {
    let k = ops();
    ensure_eq!(got.len(), n, "{}: number of entries", what);
    for i in 0..n {
        ensure_eq!(got[i], want(i), "{}: entry {}", what, i);
    }
    ensure_eq!(k, n as u64, "{}: number of element operations", what);
}
fn same(what: &str, got: Vec<T>, n: usize, want: impl Fn(usize) -> T) {
    ensure_eq!(got.len(), n, "{}: number of entries", what);
    for i in 0..n {
        ensure_eq!(got[i], want(i), "{}: entry {}", what, i);
    }
}
macro_rules! terms {
    ($v:expr) => {
        $v.iter().map(|x| x.0.clone()).collect::<Vec<T>>()
    };
}

macro_rules! vec_forms {
    ($ctx:ident $N:ident : $o:tt $c:expr, $mk1:expr, $mk2:expr, $l:expr, $r:expr, $name:expr) => {{
        let n = $N::to_usize();
        let (x, y) = ($mk1, $mk2);
        let w = |i: usize| op($c, &leaf($l, i), &leaf($r, i));
        ops();
        let form = $ctx.choose(4);
        $ctx.step();
        log!($ctx, "{} {} {}, form {}", $name, $c, n, form);
        match form {
            0 => { let z = &x $o &y; expect(concat!($name, " &l op &r"), terms!(z), n, w); }
            1 => { let z = &x $o $mk2; expect(concat!($name, " &l op r"), terms!(z), n, w); }
            2 => { let z = $mk1 $o &y; expect(concat!($name, " l op &r"), terms!(z), n, w); }
            _ => { let z = $mk1 $o $mk2; expect(concat!($name, " l op r"), terms!(z), n, w); }
        }
        same(concat!($name, ": left operand afterwards"), terms!(x), n, |i| leaf($l, i));
        same(concat!($name, ": right operand afterwards"), terms!(y), n, |i| leaf($r, i));
    }};
}

/// An operand combined with itself.
macro_rules! self_forms {
    ($ctx:ident $n:ident : $terms:ident $x:expr, $l:expr) => {{
        let x = $x;
        ops();
        $ctx.step();
        if $ctx.flip() {
            let z = &x + &x;
            expect("&x + &x", $terms!(z), $n, |i| op('+', &leaf($l, i), &leaf($l, i)));
        } else {
            let z = &x - &x;
            expect("&x - &x", $terms!(z), $n, |i| op('-', &leaf($l, i), &leaf($l, i)));
        }
        same("operand afterwards", $terms!(x), $n, |i| leaf($l, i));
    }};
}

fn vectors<N>(ctx: &mut Ctx)
where
    N: ArrayLen<A> + ArrayLen<B> + ArrayLen<C> + ArrayLen<D>,
{
    let n = N::to_usize();
    let s = || S(leaf("s", 0));
    let sb = || B(leaf("t", 0));
    ops();
    match ctx.choose(12) {
        10 => self_forms!(ctx n : terms va::<N>(), "a"),
        11 => self_forms!(ctx n : terms vb::<N>(), "b"),
        0 => vec_forms!(ctx N : + '+', va::<N>(), vb::<N>(), "a", "b", "mixed vectors"),
        1 => vec_forms!(ctx N : - '-', va::<N>(), vb::<N>(), "a", "b", "mixed vectors"),
        2 => vec_forms!(ctx N : + '+', va::<N>(), va2::<N>(), "a", "x", "vectors"),
        3 => vec_forms!(ctx N : - '-', va::<N>(), va2::<N>(), "a", "x", "vectors"),
        4 => vec_forms!(ctx N : + '+', vb::<N>(), vb2::<N>(), "b", "y", "vectors of one type"),
        5 => vec_forms!(ctx N : - '-', vb::<N>(), vb2::<N>(), "b", "y", "vectors of one type"),
        6 => {
            ctx.step();
            match ctx.choose(4) {
                0 => { let mut v = va::<N>(); v += vb::<N>(); expect("mixed +=", terms!(v), n, |i| op('+', &leaf("a", i), &leaf("b", i))); }
                1 => { let mut v = va::<N>(); v -= vb::<N>(); expect("mixed -=", terms!(v), n, |i| op('-', &leaf("a", i), &leaf("b", i))); }
                2 => { let mut v = vb::<N>(); v += vb2::<N>(); expect("+=", terms!(v), n, |i| op('+', &leaf("b", i), &leaf("y", i))); }
                _ => { let mut v = vb::<N>(); v -= vb2::<N>(); expect("-=", terms!(v), n, |i| op('-', &leaf("b", i), &leaf("y", i))); }
            }
        }
        7 => {
            ctx.step();
            if ctx.flip() {
                let v: Vector<C, N> = -va::<N>();
                expect("negation", terms!(v), n, |i| neg(&leaf("a", i)));
            } else {
                let v: Vector<B, N> = -vb::<N>();
                expect("negation", terms!(v), n, |i| neg(&leaf("b", i)));
            }
        }
        8 => {
            ctx.step();
            let w = |o: char| move |i: usize| op(o, &leaf("a", i), &leaf("s", 0));
            let wb = |o: char| move |i: usize| op(o, &leaf("b", i), &leaf("t", 0));
            match ctx.choose(8) {
                0 => { let v: Vector<C, N> = va::<N>() * s(); expect("v * s", terms!(v), n, w('*')); }
                1 => { let v: Vector<C, N> = va::<N>() * &s(); expect("v * &s", terms!(v), n, w('*')); }
                2 => { let v: Vector<C, N> = va::<N>() / s(); expect("v / s", terms!(v), n, w('/')); }
                3 => { let v: Vector<C, N> = va::<N>() / &s(); expect("v / &s", terms!(v), n, w('/')); }
                4 => { let v: Vector<B, N> = vb::<N>() * sb(); expect("v * t", terms!(v), n, wb('*')); }
                5 => { let v: Vector<B, N> = vb::<N>() / sb(); expect("v / t", terms!(v), n, wb('/')); }
                6 => { let v: Vector<B, N> = vb::<N>() * &sb(); expect("v * &t", terms!(v), n, wb('*')); }
                _ => { let v: Vector<B, N> = vb::<N>() / &sb(); expect("v / &t", terms!(v), n, wb('/')); }
            }
        }
        _ => {
            ctx.step();
            match ctx.choose(4) {
                0 => { let mut v = va::<N>(); v *= s(); expect("v *= s", terms!(v), n, |i| op('*', &leaf("a", i), &leaf("s", 0))); }
                1 => { let mut v = va::<N>(); v /= s(); expect("v /= s", terms!(v), n, |i| op('/', &leaf("a", i), &leaf("s", 0))); }
                2 => { let mut v = vb::<N>(); v *= sb(); expect("v *= t", terms!(v), n, |i| op('*', &leaf("b", i), &leaf("t", 0))); }
                _ => { let mut v = vb::<N>(); v /= sb(); expect("v /= t", terms!(v), n, |i| op('/', &leaf("b", i), &leaf("t", 0))); }
            }
        }
    }
}

macro_rules! mk {
    ($f:ident $t:ident $s:expr) => {
        fn $f<R, C_>() -> Matrix<$t, R, C_>
        where
            R: ArrayLen<Vector<$t, C_>>,
            C_: ArrayLen<$t>,
        {
            Matrix::generate(|(i, j)| $t(leaf($s, i * C_::to_usize() + j)))
        }
    };
}
mk!(ma A "a");
mk!(ma2 A "x");
mk!(mb B "b");
mk!(mb2 B "y");

macro_rules! mterms {
    ($m:expr) => {
        $m.rows_iter_ref().flat_map(|r| r.iter()).map(|x| x.0.clone()).collect::<Vec<T>>()
    };
}
macro_rules! mat_forms {
    ($ctx:ident $n:ident : $o:tt $c:expr, $mk1:expr, $mk2:expr, $l:expr, $r:expr) => {{
        let (x, y) = ($mk1, $mk2);
        let w = |i: usize| op($c, &leaf($l, i), &leaf($r, i));
        ops();
        let form = $ctx.choose(4);
        $ctx.step();
        log!($ctx, "matrices {} of {} entries, form {}", $c, $n, form);
        match form {
            0 => { let z = &x $o &y; expect("matrices &l op &r", mterms!(z), $n, w); }
            1 => { let z = &x $o $mk2; expect("matrices &l op r", mterms!(z), $n, w); }
            2 => { let z = $mk1 $o &y; expect("matrices l op &r", mterms!(z), $n, w); }
            _ => { let z = $mk1 $o $mk2; expect("matrices l op r", mterms!(z), $n, w); }
        }
        same("left operand afterwards", mterms!(x), $n, |i| leaf($l, i));
        same("right operand afterwards", mterms!(y), $n, |i| leaf($r, i));
    }};
}

fn matrices<R, Q>(ctx: &mut Ctx)
where
    R: ArrayLen<Vector<A, Q>> + ArrayLen<Vector<B, Q>> + ArrayLen<Vector<C, Q>> + ArrayLen<Vector<D, Q>>,
    Q: ArrayLen<A> + ArrayLen<B> + ArrayLen<C> + ArrayLen<D>,
{
    let n = <R as rowcol::typenum::Unsigned>::to_usize() * <Q as rowcol::typenum::Unsigned>::to_usize();
    let sb = || B(leaf("t", 0));
    ops();
    match ctx.choose(9) {
        7 => self_forms!(ctx n : mterms ma::<R, Q>(), "a"),
        8 => self_forms!(ctx n : mterms mb::<R, Q>(), "b"),
        0 => mat_forms!(ctx n : + '+', ma::<R, Q>(), ma2::<R, Q>(), "a", "x"),
        1 => mat_forms!(ctx n : - '-', ma::<R, Q>(), ma2::<R, Q>(), "a", "x"),
        2 => mat_forms!(ctx n : + '+', mb::<R, Q>(), mb2::<R, Q>(), "b", "y"),
        3 => mat_forms!(ctx n : - '-', mb::<R, Q>(), mb2::<R, Q>(), "b", "y"),
        4 => {
            ctx.step();
            match ctx.choose(4) {
                0 => { let mut v = ma::<R, Q>(); v += mb::<R, Q>(); expect("mixed matrix +=", mterms!(v), n, |i| op('+', &leaf("a", i), &leaf("b", i))); }
                1 => { let mut v = ma::<R, Q>(); v -= mb::<R, Q>(); expect("mixed matrix -=", mterms!(v), n, |i| op('-', &leaf("a", i), &leaf("b", i))); }
                2 => { let mut v = mb::<R, Q>(); v += mb2::<R, Q>(); expect("matrix +=", mterms!(v), n, |i| op('+', &leaf("b", i), &leaf("y", i))); }
                _ => { let mut v = mb::<R, Q>(); v -= mb2::<R, Q>(); expect("matrix -=", mterms!(v), n, |i| op('-', &leaf("b", i), &leaf("y", i))); }
            }
        }
        5 => {
            ctx.step();
            if ctx.flip() {
                let v: Matrix<C, R, Q> = -ma::<R, Q>();
                expect("matrix negation", mterms!(v), n, |i| neg(&leaf("a", i)));
            } else {
                let v: Matrix<B, R, Q> = -mb::<R, Q>();
                expect("matrix negation", mterms!(v), n, |i| neg(&leaf("b", i)));
            }
        }
        _ => {
            ctx.step();
            let w = |o: char| move |i: usize| op(o, &leaf("b", i), &leaf("t", 0));
            match ctx.choose(6) {
                0 => { let v: Matrix<B, R, Q> = mb::<R, Q>() * sb(); expect("m * t", mterms!(v), n, w('*')); }
                1 => { let v: Matrix<B, R, Q> = mb::<R, Q>() / sb(); expect("m / t", mterms!(v), n, w('/')); }
                2 => { let v: Matrix<B, R, Q> = mb::<R, Q>() * &sb(); expect("m * &t", mterms!(v), n, w('*')); }
                3 => { let v: Matrix<B, R, Q> = mb::<R, Q>() / &sb(); expect("m / &t", mterms!(v), n, w('/')); }
                4 => { let mut v = mb::<R, Q>(); v *= sb(); expect("m *= t", mterms!(v), n, w('*')); }
                _ => { let mut v = mb::<R, Q>(); v /= sb(); expect("m /= t", mterms!(v), n, w('/')); }
            }
        }
    }
}

/// Concrete element types, whose values a specialised implementation could inspect: all pairs of entries from a set
/// with the special values, at every position of small vectors and matrices.
macro_rules! concrete {
    ($name:ident $t:ty, $vals:expr, $bits:expr, $add:expr, $sub:expr, $mul:expr, $div:expr, $zero_div:expr) => {
        fn $name(ctx: &mut Ctx) {
            let vals: &[$t] = &$vals;
            let k = vals.len();
            let bits = $bits;
            let (a0, a1, b0, b1) = (vals[ctx.choose(k)], vals[ctx.choose(k)], vals[ctx.choose(k)], vals[ctx.choose(k)]);
            ctx.step();
            let eq = |what: &str, got: &[$t], f: fn($t, $t) -> $t, ys: &[$t]| {
                for (i, x) in [a0, a1].iter().enumerate() {
                    let w = f(*x, ys[i]);
                    ensure!(bits(got[i]) == bits(w), "{}: entry {} of ({:?}, {:?}) and {:?} is {:?}, expected {:?}", what, i, a0, a1, ys, got[i], w);
                }
            };
            let v = || Vector::<$t, U2>::new([a0, a1]);
            let w = || Vector::<$t, U2>::new([b0, b1]);
            let m = || Matrix::<$t, U2, U1>::new([[a0], [a1]]);
            let q = || Matrix::<$t, U2, U1>::new([[b0], [b1]]);
            let fl = |m: Matrix<$t, U2, U1>| [m[(0, 0)], m[(1, 0)]];
            macro_rules! both { ($e1:expr, $e2:expr, $f:expr, $ys:expr) => {{
                eq(stringify!($e1), ($e1).as_slice(), $f, &$ys);
                eq(stringify!($e2), &fl($e2), $f, &$ys);
            }} }
            macro_rules! asg { ($o:tt, $y:expr, $z:expr, $f:expr, $ys:expr) => {{
                let mut x = v(); x $o $y; eq(concat!("v ", stringify!($o)), x.as_slice(), $f, &$ys);
                let mut x = m(); x $o $z; eq(concat!("m ", stringify!($o)), &fl(x), $f, &$ys);
            }} }
            both!(v() + w(), m() + q(), $add, [b0, b1]);
            both!(&v() + w(), &m() + q(), $add, [b0, b1]);
            both!(v() + &w(), m() + &q(), $add, [b0, b1]);
            both!(&v() + &w(), &m() + &q(), $add, [b0, b1]);
            both!(v() - w(), m() - q(), $sub, [b0, b1]);
            both!(&v() - w(), &m() - q(), $sub, [b0, b1]);
            both!(v() - &w(), m() - &q(), $sub, [b0, b1]);
            both!(&v() - &w(), &m() - &q(), $sub, [b0, b1]);
            asg!(+=, w(), q(), $add, [b0, b1]);
            asg!(-=, w(), q(), $sub, [b0, b1]);
            both!(v() * b0, m() * b0, $mul, [b0, b0]);
            both!(v() * &b0, m() * &b0, $mul, [b0, b0]);
            asg!(*=, b0, b0, $mul, [b0, b0]);
            if $zero_div || bits(b0) != 0 {
                both!(v() / b0, m() / b0, $div, [b0, b0]);
                both!(v() / &b0, m() / &b0, $div, [b0, b0]);
                asg!(/=, b0, b0, $div, [b0, b0]);
            }
            both!(-v(), -m(), |x, _| -x, [b0, b1]);
        }
    };
}
concrete!(floats f64, [0.0, -0.0, 1.0, -1.0, 0.1, 1e300, -3.5e-310, f64::INFINITY, f64::NEG_INFINITY, f64::NAN],
    |x: f64| if x.is_nan() { 1 } else { x.to_bits() }, |a, b| a + b, |a, b| a - b, |a, b| a * b, |a, b| a / b, true);
concrete!(ints i64, [0, 1, -1, 2, 3, -7, 1_000_003, -2_000_000_011], |x: i64| x, |a, b| a + b, |a, b| a - b, |a, b| a * b, |a, b| a / b, false);

macro_rules! kinds_of {
    ($ctx:ident, $Z:ident, $V:ty, $n:expr, $mk:expr, $raw:expr) => {{
        let (n, mk, raw) = ($n, $mk, $raw);
        let l = $ctx.choose(3);
        let (x, y) = (|| mk(l), || mk(l + 1));
        let s = || F::<$Z>::new(3 + 8 * l as i64);
        let f = |what: &str, v: $V, w: &dyn Fn(i64, i64) -> i64| {
            let got = raw(&v);
            ensure_eq!(got.len(), n, "{}: number of entries", what);
            for i in 0..n {
                let e = w(value(l, i), value(l + 1, i)).rem_euclid(kinds::Q);
                ensure_eq!(got[i], e, "{}: entry {} of {:?}", what, i, got);
            }
        };
        let k = 3 + 8 * l as i64;
        $ctx.step();
        macro_rules! ex { ($e:expr, $w:expr) => { f(stringify!($e), $e, &$w) } }
        match $ctx.choose(10) {
            0 => { ex!(&x() + &y(), |a, b| a + b); ex!(&x() + y(), |a, b| a + b); }
            1 => { ex!(x() + &y(), |a, b| a + b); ex!(x() + y(), |a, b| a + b); }
            2 => { ex!(&x() - &y(), |a, b| a - b); ex!(&x() - y(), |a, b| a - b); }
            3 => { ex!(x() - &y(), |a, b| a - b); ex!(x() - y(), |a, b| a - b); }
            4 => { ex!({ let mut v = x(); v += y(); v }, |a, b| a + b); ex!({ let mut v = x(); v -= y(); v }, |a, b| a - b); }
            5 => { ex!(x() * s(), |a, _| a * k); ex!(x() * &s(), |a, _| a * k); }
            6 => { ex!(x() / s(), |a, _| a * kinds::inv(k)); ex!(x() / &s(), |a, _| a * kinds::inv(k)); }
            7 => { ex!({ let mut v = x(); v *= s(); v }, |a, _| a * k); ex!({ let mut v = x(); v /= s(); v }, |a, _| a * kinds::inv(k)); }
            8 => { let v = x(); ex!(&v + &v, |a, _| a + a); ex!(&v - &v, |_, _| 0); ex!(v, |a, _| a); }
            _ => { ex!(-x(), |a, _| -a); ex!(-(x() + y()), |a, b| -a - b); }
        }
    }};
}
/// The same for every kind of element that generic code can tell apart.
fn kind_vectors<Z: Slot, N: ArrayLen<F<Z>>>(ctx: &mut Ctx) {
    kinds::reset();
    kinds_of!(ctx, Z, Vector<F<Z>, N>, N::to_usize(), |l: usize| Vector::<F<Z>, N>::generate(|i| F::new(value(l, i))), |v: &Vector<F<Z>, N>| v.iter().map(|x| x.v()).collect::<Vec<_>>());
    kinds::settle("end");
}
fn kind_matrices<Z: Slot, R, Q>(ctx: &mut Ctx)
where
    R: ArrayLen<Vector<F<Z>, Q>>,
    Q: ArrayLen<F<Z>>,
{
    kinds::reset();
    let (r, c) = (<R as Unsigned>::to_usize(), <Q as Unsigned>::to_usize());
    kinds_of!(
        ctx, Z,
        Matrix<F<Z>, R, Q>,
        r * c,
        |l: usize| Matrix::<F<Z>, R, Q>::generate(|(i, j)| F::new(value(l, i * c + j))),
        |m: &Matrix<F<Z>, R, Q>| m.rows_iter_ref().flat_map(|r| r.iter()).map(|x| x.v()).collect::<Vec<_>>()
    );
    kinds::settle("end");
}

macro_rules! larger {
    ($m:ident $(, $a:tt)*) => {
        $m!(U5, U5 $(, $a)*); $m!(U6, U6 $(, $a)*); $m!(U7, U7 $(, $a)*); $m!(U8, U8 $(, $a)*); $m!(U9, U9 $(, $a)*);
        $m!(U5, U8 $(, $a)*); $m!(U8, U5 $(, $a)*); $m!(U16, U2 $(, $a)*); $m!(U2, U16 $(, $a)*); $m!(U17, U3 $(, $a)*);
        $m!(U3, U17 $(, $a)*); $m!(U32, U1 $(, $a)*); $m!(U1, U32 $(, $a)*); $m!(U31, U2 $(, $a)*); $m!(U2, U31 $(, $a)*);
        $m!(U0, U32 $(, $a)*); $m!(U32, U0 $(, $a)*); $m!(U10, U12 $(, $a)*); $m!(U16, U16 $(, $a)*); $m!(U32, U32 $(, $a)*);
    };
}

fn main() {
    let ck = Check::new("C08");
    let mut t: Table = vec![];
    for_lens!(push_len, t, vectors);
    ck.bound("vectors", "every length 0..=32, every operator in every operand form, distinct variables");
    explore_table(&ck, "vectors", &t);
    let mut t: Table = vec![];
    for_small_shapes!(push_shape, t, matrices);
    larger!(push_shape, t, matrices);
    ck.bound("matrices", "all shapes up to 4x4 and 20 larger ones, every operator in every operand form");
    explore_table(&ck, "matrices", &t);
    let t: Table = vec![("f64", floats as fn(&mut Ctx)), ("i64", ints)];
    ck.bound("concrete", "every pair of 2-vectors and 2x1 matrices over 10 f64 values (bit for bit) and 8 i64 values");
    explore_table(&ck, "concrete", &t);
    let mut t: Table = vec![];
    for_kinds!(push_kind_lens, t, kind_vectors);
    for_kinds!(push_kind_shapes, t, kind_matrices);
    ck.bound("kinds", format!("every operator in every operand form for {}, vectors of {} and matrices of {}", kinds::KINDS, kinds::LENS, kinds::SHAPES));
    explore_table(&ck, "kinds", &t);
    #[cfg(feature = "wide")]
    {
        let mut t: Table = vec![];
        for_mid_shapes!(push_shape, t, matrices);
        for_large_shapes!(push_shape, t, matrices);
        explore_table(&ck, "more matrices", &t);
    }
    ck.finish();
}
