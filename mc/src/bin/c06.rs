//! C06: every construction puts every element in its place.
#![allow(unused_macros)]
#[macro_use]
extern crate rowcol;
use mc::kinds::{self, *};
use mc::shapes::*;
use mc::tok::{self, Tok};
use mc::*;
use num::{Bounded, One, Zero};
use rowcol::prelude::{Matrix, Vector};
use rowcol::vector::ArrayLen;
use rowcol_mc as mc;
use std::cell::{Cell, RefCell};
use std::fmt::Debug;

/// All special values of K differ.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct K(i32);
impl Default for K {
    fn default() -> K {
        K(7)
    }
}
impl Zero for K {
    fn zero() -> K {
        K(0)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0
    }
}
impl One for K {
    fn one() -> K {
        K(1)
    }
}
impl Bounded for K {
    fn min_value() -> K {
        K(-9)
    }
    fn max_value() -> K {
        K(9)
    }
}
impl std::ops::Add for K {
    type Output = K;
    fn add(self, o: K) -> K {
        K(self.0 + o.0)
    }
}
impl std::ops::Mul for K {
    type Output = K;
    fn mul(self, o: K) -> K {
        K(self.0 * o.0)
    }
}

fn same_vec<T: PartialEq + Debug, N: ArrayLen<T>>(v: &Vector<T, N>, f: impl Fn(usize) -> T, what: &str) {
    let n = N::to_usize();
    let s: &[T] = v.as_slice();
    ensure_eq!(s.len(), n, "{}: length", what);
    for i in 0..n {
        ensure_eq!(s[i], f(i), "{}: element {} of {}", what, i, n);
    }
}
fn same_mat<T: PartialEq + Debug, R, C>(m: &Matrix<T, R, C>, f: impl Fn(usize, usize) -> T, what: &str)
where
    R: ArrayLen<Vector<T, C>>,
    C: ArrayLen<T>,
{
    let (r, c) = (R::to_usize(), C::to_usize());
    let mut it = m.rows_iter_ref();
    for i in 0..r {
        let row = it.next().unwrap();
        ensure_eq!(row.len(), c, "{}: length of row {}", what, i);
        for j in 0..c {
            ensure_eq!(row[j], f(i, j), "{}: entry ({}, {}) of {}x{}", what, i, j, r, c);
        }
    }
}

fn vec_values<N>(ctx: &mut Ctx)
where
    N: ArrayLen<K> + ArrayLen<String>,
{
    let n = N::to_usize();
    let k = ctx.choose(6);
    log!(ctx, "construction {} of length {}", k, n);
    ctx.step();
    match k {
        0 => {
            let calls = RefCell::new(vec![]);
            let v = Vector::<String, N>::generate(|i| {
                calls.borrow_mut().push(i);
                format!("e{}", i)
            });
            ensure_eq!(*calls.borrow(), (0..n).collect::<Vec<_>>(), "calls received by the generator");
            same_vec(&v, |i| format!("e{}", i), "generate");
            let a = v.into_inner();
            let v = Vector::<String, N>::new(a);
            same_vec(&v, |i| format!("e{}", i), "new");
        }
        1 => same_vec(&Vector::<K, N>::default(), |_| K(7), "default"),
        2 => {
            let z = Vector::<K, N>::zero();
            same_vec(&z, |_| K(0), "zero");
            ensure!(z.is_zero(), "zero is not zero");
        }
        3 => same_vec(&<Vector<K, N> as Bounded>::min_value(), |_| K(-9), "min_value"),
        4 => same_vec(&<Vector<K, N> as Bounded>::max_value(), |_| K(9), "max_value"),
        _ => {
            // a generator with state
            let mut s = 0;
            let v = Vector::<K, N>::generate(|i| {
                s = s * 2 + i as i32 % 3;
                s %= 1009;
                K(s)
            });
            let mut s = 0;
            let w: Vec<K> = (0..n).map(|i| { s = s * 2 + i as i32 % 3; s %= 1009; K(s) }).collect();
            same_vec(&v, |i| w[i], "stateful generate");
        }
    }
}

/// A source iterator that yields `len` elements, then `None` (then, if `refill`, more elements).
struct Source {
    pos: usize,
    len: usize,
    hint: (usize, Option<usize>),
    refill: bool,
    done: bool,
}
impl Iterator for Source {
    type Item = Tok;
    fn next(&mut self) -> Option<Tok> {
        if self.pos < self.len {
            self.pos += 1;
            Some(Tok::new(self.pos as i64))
        } else if self.refill && self.done && self.pos < self.len + 5 {
            self.pos += 1;
            Some(Tok::new(-1))
        } else {
            self.done = true;
            None
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.hint
    }
}

fn collect<N: ArrayLen<Tok>>(ctx: &mut Ctx) {
    tok::reset();
    let n = N::to_usize();
    let mut lens: Vec<usize> = (0..n + 3).collect();
    if !cfg!(miri) {
        lens.extend([n + 33, 2 * n + 1, 10_000]);
    }
    let len = *ctx.pick(&lens);
    let refill = ctx.flip();
    let hint = ctx.choose(if cfg!(miri) { 2 } else { 6 });
    let hint_v = match hint {
        0 => (len, Some(len)),
        1 => (0, None),
        2 => (0, Some(len + 5)),
        3 => (len.min(1), None),
        // wrong hints
        4 => (n, Some(n)),
        _ => (0, Some(0)),
    };
    let honest = hint < 4;
    log!(ctx, "collect {} elements into a vector of {}, hint {:?}, refill {}", len, n, hint_v, refill);
    let src = Source { pos: 0, len, hint: hint_v, refill, done: false };
    let by_ref = ctx.flip();
    let res = catch(|| {
        if by_ref {
            let mut src = src;
            src.by_ref().collect::<Vector<Tok, N>>()
        } else {
            src.collect::<Vector<Tok, N>>()
        }
    });
    ctx.step();
    match res {
        Ok(v) => {
            ensure!(len >= n, "collecting {} elements produced a vector of {}", len, n);
            ensure!(len == n || !cfg!(debug_assertions), "collecting {} elements into a vector of {} did not panic", len, n);
            for (i, x) in v.iter().enumerate() {
                ensure_eq!(x.v(), i as i64 + 1, "element {} of the collected vector", i);
            }
            tok::verify(n as i64, "collected");
            ctx.outcome((n, len == n, 1));
            drop(v);
        }
        Err(Caught::Injected) => mc::fail("harness: injected"),
        Err(e) => {
            ensure!(
                !honest || len < n || (len > n && cfg!(debug_assertions)),
                "collecting {} elements into a vector of {} panicked: {:?}", len, n, e
            );
            ctx.outcome((n, len < n, 2));
        }
    }
    tok::verify(0, "end");
}

fn mat_values<R, C>(ctx: &mut Ctx)
where
    R: ArrayLen<Vector<K, C>> + ArrayLen<Vector<String, C>> + ArrayLen<<C as ArrayLen<String>>::Array>,
    C: ArrayLen<K> + ArrayLen<String>,
{
    let (r, c) = (R::to_usize(), C::to_usize());
    let name = |i: usize, j: usize| format!("e{}_{}", i, j);
    let k = ctx.choose(6);
    log!(ctx, "construction {} of {}x{}", k, r, c);
    ctx.step();
    match k {
        0 => {
            let calls = RefCell::new(vec![]);
            let m = Matrix::<String, R, C>::generate(|(i, j)| {
                calls.borrow_mut().push((i, j));
                name(i, j)
            });
            let want: Vec<(usize, usize)> = (0..r).flat_map(|i| (0..c).map(move |j| (i, j))).collect();
            ensure_eq!(*calls.borrow(), want, "calls received by the generator");
            same_mat(&m, name, "generate");
        }
        1 => {
            let a = Vector::<<C as ArrayLen<String>>::Array, R>::generate(|i| Vector::<String, C>::generate(|j| name(i, j)).into_inner());
            same_mat(&Matrix::<String, R, C>::new(a.into_inner()), name, "new");
        }
        2 => same_mat(&Matrix::<K, R, C>::default(), |_, _| K(7), "default"),
        3 => {
            let z = Matrix::<K, R, C>::zero();
            same_mat(&z, |_, _| K(0), "zero");
            ensure!(z.is_zero(), "zero is not zero");
        }
        4 => same_mat(&<Matrix<K, R, C> as Bounded>::min_value(), |_, _| K(-9), "min_value"),
        _ => same_mat(&<Matrix<K, R, C> as Bounded>::max_value(), |_, _| K(9), "max_value"),
    }
}

fn square<N>(ctx: &mut Ctx)
where
    N: ArrayLen<Vector<K, N>> + ArrayLen<K>,
{
    let id = |i, j| K((i == j) as i32);
    if ctx.flip() {
        same_mat(&Matrix::<K, N, N>::identity(), id, "identity");
    } else {
        same_mat(&<Matrix<K, N, N> as One>::one(), id, "one");
    }
    ctx.step();
}

macro_rules! diag_case {
    ($R:ident, $C:ident, $M:ident, $v:ident) => {
        $v.push((concat!("diag ", stringify!($R), "x", stringify!($C)), (|ctx: &mut Ctx| {
            let d = Vector::<K, $M>::generate(|i| K(i as i32 + 20)).into_inner();
            let m = Matrix::<K, $R, $C>::diag(d);
            same_mat(&m, |i, j| if i == j { K(i as i32 + 20) } else { K(0) }, "diag");
            ensure_eq!(m.dim(), (<$R as rowcol::typenum::Unsigned>::to_usize(), <$C as rowcol::typenum::Unsigned>::to_usize()), "dim");
            // owned elements
            tok::reset();
            let d = Vector::<Tok, $M>::generate(|i| Tok::new(i as i64 + 20)).into_inner();
            let m = Matrix::<Tok, $R, $C>::diag(d);
            same_mat(&m.map(|_, t| t.v()), |i, j| if i == j { i as i64 + 20 } else { 0 }, "diag");
            tok::verify(0, "diag");
            ctx.step();
        }) as fn(&mut Ctx)));
    };
}

thread_local!(static NEXT: Cell<i32> = Cell::new(0));
/// An expression whose evaluations are counted.
fn e() -> i32 {
    NEXT.with(|n| {
        n.set(n.get() + 1);
        n.get()
    })
}
fn evaluated() -> i32 {
    NEXT.with(|n| n.replace(0))
}

macro_rules! vec_case {
    ($v:ident, $N:ident, $n:expr, [$($x:expr),*]) => {
        $v.push((concat!("vector! of ", stringify!($n)), (|ctx: &mut Ctx| {
            evaluated();
            let v: Vector<i32, $N> = vector![$($x),*];
            ensure_eq!(evaluated(), $n, "evaluations of the elements");
            same_vec(&v, |i| i as i32 + 1, "vector!");
            ctx.step();
        }) as fn(&mut Ctx)));
    };
}
macro_rules! mat_case {
    ($v:ident, $R:ident, $C:ident, $c:expr, $n:expr, [$([$($x:expr),*]),*]) => {
        $v.push((concat!("matrix! ", stringify!($R), "x", stringify!($C)), (|ctx: &mut Ctx| {
            evaluated();
            let m: Matrix<i32, $R, $C> = matrix![$([$($x),*]),*];
            ensure_eq!(evaluated(), $n, "evaluations of the elements");
            same_mat(&m, |i, j| (i * $c + j) as i32 + 1, "matrix!");
            ctx.step();
        }) as fn(&mut Ctx)));
    };
}

include!("../gen_construct.rs");

/// Every kind of element that generic code can tell apart.
fn kind_length<Z: Slot, N: ArrayLen<kinds::F<Z>> + ArrayLen<Vector<kinds::F<Z>, N>>>(ctx: &mut Ctx) {
    kinds::reset();
    let n = N::to_usize();
    let l = ctx.choose(2);
    let is = |what: &str, v: Vector<kinds::F<Z>, N>, w: &dyn Fn(usize) -> i64| {
        ensure_eq!(v.len(), n, "{}: length", what);
        for i in 0..n {
            ensure_eq!(v[i].v(), w(i), "{}: element {} of {}", what, i, n);
        }
    };
    let g = || {
        let mut calls = 0;
        let v = Vector::<kinds::F<Z>, N>::generate(|i| {
            ensure_eq!(i, calls, "index in call {} of the generator of {} elements", calls, n);
            calls += 1;
            kinds::F::new(value(l, i))
        });
        ensure_eq!(calls, n, "calls of the generator");
        v
    };
    ctx.step();
    is("generate", g(), &|i| value(l, i));
    is("new", Vector::new(g().into_inner()), &|i| value(l, i));
    is("collect", (0..n).map(|i| kinds::F::new(value(l, i))).collect(), &|i| value(l, i));
    is("collect without an exact size hint", (0..2 * n + 5).filter(|i| *i < n).map(|i| kinds::F::new(value(l, i))).collect(), &|i| value(l, i));
    for k in (0..n).chain([n + 1, 2 * n + 3]) {
        match catch(|| (0..k).map(|i| kinds::F::<Z>::new(value(l, i))).collect::<Vector<_, N>>()) {
            Err(_) => (),
            // too many: a panic with debug assertions on, otherwise the first ones in order
            Ok(v) => {
                ensure!(k > n && !cfg!(debug_assertions), "{} elements collected into {}", k, n);
                is("collect of too many", v, &|i| value(l, i));
            }
        }
    }
    is("default", Default::default(), &|_| 7);
    is("zero", Zero::zero(), &|_| 0);
    is("min_value", Bounded::min_value(), &|_| 0);
    is("max_value", Bounded::max_value(), &|_| kinds::Q - 1);
    let m = if l == 0 { Matrix::<kinds::F<Z>, N, N>::identity() } else { One::one() };
    for i in 0..n {
        for j in 0..n {
            ensure_eq!(m[(i, j)].v(), (i == j) as i64, "entry {:?} of the {}x{} identity", (i, j), n, n);
        }
    }
    drop(m);
    kinds::verify("end");
}
fn kind_shape<Z: Slot, R, C>(ctx: &mut Ctx)
where
    R: ArrayLen<Vector<kinds::F<Z>, C>>,
    C: ArrayLen<kinds::F<Z>>,
{
    kinds::reset();
    let (r, c) = (<R as rowcol::typenum::Unsigned>::to_usize(), <C as rowcol::typenum::Unsigned>::to_usize());
    let l = ctx.choose(2);
    let is = |what: &str, m: Matrix<kinds::F<Z>, R, C>, w: &dyn Fn(usize, usize) -> i64| {
        ensure_eq!(m.dim(), (r, c), "{}: dim", what);
        for i in 0..r {
            for j in 0..c {
                ensure_eq!(m[(i, j)].v(), w(i, j), "{}: entry {:?} of {}x{}", what, (i, j), r, c);
            }
        }
    };
    let w = |i: usize, j: usize| value(l, i * c + j);
    ctx.step();
    let mut calls = 0;
    let m = Matrix::generate(|(i, j)| {
        ensure_eq!((i, j), (calls / c, calls % c), "index in call {} of the generator of {}x{}", calls, r, c);
        calls += 1;
        kinds::F::new(w(i, j))
    });
    ensure_eq!(calls, r * c, "calls of the generator");
    is("generate", m, &w);
    let rows = Vector::<Vector<kinds::F<Z>, C>, R>::generate(|i| Vector::generate(|j| kinds::F::new(w(i, j))));
    is("default", Default::default(), &|_, _| 7);
    is("zero", Zero::zero(), &|_, _| 0);
    is("min_value", Bounded::min_value(), &|_, _| 0);
    is("max_value", Bounded::max_value(), &|_, _| kinds::Q - 1);
    for i in 0..r {
        for j in 0..c {
            ensure_eq!(rows[i][j].v(), w(i, j), "element {} of vector {}", j, i);
        }
    }
    drop(rows);
    kinds::verify("end");
}
fn kind_diag<Z: Slot>(ctx: &mut Ctx) {
    kinds::reset();
    ctx.step();
    let v = |k| kinds::F::<Z>::new(value(1, k));
    let is = |i: usize, j: usize, x: &kinds::F<Z>| ensure_eq!(x.v(), if i == j { value(1, i) } else { 0 }, "entry {:?} of diag", (i, j));
    let a = Matrix::<kinds::F<Z>, U3, U3>::diag([v(0), v(1), v(2)]);
    let b = Matrix::<kinds::F<Z>, U2, U5>::diag([v(0), v(1)]);
    let c = Matrix::<kinds::F<Z>, U4, U1>::diag([v(0)]);
    let d = Matrix::<kinds::F<Z>, U2, U3>::new([[v(0), v(1), v(2)], [v(3), v(4), v(5)]]);
    for i in 0..4 {
        for j in 0..5 {
            if i < 3 && j < 3 {
                is(i, j, &a[(i, j)]);
            }
            if i < 2 {
                is(i, j, &b[(i, j)]);
            }
            if j == 0 {
                is(i, j, &c[(i, j)]);
            }
            if i < 2 && j < 3 {
                ensure_eq!(d[(i, j)].v(), value(1, 3 * i + j), "entry {:?} of new", (i, j));
            }
        }
    }
    drop((a, b, c, d));
    kinds::verify("end");
}

fn main() {
    let ck = Check::new("C06");
    if cfg!(miri) {
        let mut t: Table = vec![];
        push_len!(U2, 2, t, collect);
        explore_table(&ck, "collect", &t);
        return ck.finish();
    }
    let mut t: Table = vec![];
    for_lens!(push_len, t, vec_values);
    ck.bound("vector values", "every length");
    explore_table(&ck, "vector values", &t);
    let mut t: Table = vec![];
    for_lens!(push_len, t, collect);
    ck.bound("collect", "every length, sources of 0..=N+2, 2N+1, N+33 and 10000 elements, fused or not, six size hints");
    explore_table(&ck, "collect", &t);
    let mut t: Table = vec![];
    for_mid_shapes!(push_shape, t, mat_values);
    for_large_shapes!(push_shape, t, mat_values);
    ck.bound("matrix values", "every shape up to 9x9 and selected ones up to 32x32");
    explore_table(&ck, "matrix values", &t);
    let mut t: Table = vec![];
    for_all_squares!(push_len, t, square);
    explore_table(&ck, "identity", &t);
    let mut t: Table = vec![];
    diag_table(&mut t);
    explore_table(&ck, "diag", &t);
    let mut t: Table = vec![];
    macro_table(&mut t);
    explore_table(&ck, "macros", &t);
    #[cfg(feature = "wide")]
    if ck.thorough {
        let mut t: Table = vec![];
        for_all_shapes!(push_shape, t, mat_values);
        explore_table(&ck, "matrix values of all shapes", &t);
    }
    let mut t: Table = vec![];
    for_kinds!(push_kind_lens, t, kind_length);
    for_kinds!(push_kind_shapes, t, kind_shape);
    for_kinds!(push_kind, t, kind_diag);
    ck.bound("kinds", format!("every way to construct for {}, {} and shapes {}", kinds::KINDS, kinds::LENS, kinds::SHAPES));
    explore_table(&ck, "kinds", &t);
    ck.finish();
}
