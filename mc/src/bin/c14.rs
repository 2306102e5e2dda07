//! C14: transposition, mapping, predicates, conjugation, zero test and cloning.
use mc::kinds::{self, *};
use mc::shapes::*;
use mc::*;
use num::{Complex, Zero};
use rowcol::prelude::*;
use rowcol::typenum::Unsigned;
use rowcol::vector::ArrayLen;
use rowcol_mc as mc;
use std::cell::Cell;
use std::ops::Add;

fn code(i: usize, j: usize) -> u16 {
    (i * 64 + j + 1) as u16
}

/// `all` and `any` with every pattern of answers (small), or all answers but one equal (large).
fn predicates<R, C>(ctx: &mut Ctx)
where
    R: Unsigned + ArrayLen<Vector<u16, C>>,
    C: Unsigned + ArrayLen<u16>,
{
    let (r, c) = (<R as Unsigned>::to_usize(), <C as Unsigned>::to_usize());
    let n = r * c;
    let answers: Vec<bool> = answers(ctx, n);
    let m = Matrix::<u16, R, C>::generate(|(i, j)| code(i, j));
    for which in 0..2 {
        let got = {
            let f = |(i, j): (usize, usize), v: &u16| {
                ensure!(i < r && j < c, "the predicate is asked about position {:?} of a {}x{} matrix", (i, j), r, c);
                ensure_eq!(*v, code(i, j), "entry given to the predicate for position {:?} of {}x{}", (i, j), r, c);
                answers[i * c + j]
            };
            if which == 0 {
                m.all(f)
            } else {
                m.any(f)
            }
        };
        let want = if which == 0 { answers.iter().all(|x| *x) } else { answers.iter().any(|x| *x) };
        ctx.step();
        ensure_eq!(got, want, "{} of a {}x{} matrix with answers {:?}", ["all", "any"][which], r, c, answers);
    }
    ctx.outcome((r, c, answers.iter().all(|x| *x), answers.iter().any(|x| *x)));
    log!(ctx, "{}x{} answers {:?}", r, c, answers);
}

/// Every pattern up to 9 entries; above, uniform with at most one exception.
fn answers(ctx: &mut Ctx, n: usize) -> Vec<bool> {
    if n <= 9 {
        (0..n).map(|_| ctx.flip()).collect()
    } else {
        let base = ctx.flip();
        let k = ctx.choose(n + 1);
        (0..n).map(|i| if i + 1 == k { !base } else { base }).collect()
    }
}

/// `map` to another type.
fn map<R, C>(ctx: &mut Ctx)
where
    R: Unsigned + ArrayLen<Vector<u16, C>> + ArrayLen<Vector<(u32, u16), C>>,
    C: Unsigned + ArrayLen<u16> + ArrayLen<(u32, u16)>,
{
    let (r, c) = (<R as Unsigned>::to_usize(), <C as Unsigned>::to_usize());
    let m = Matrix::<u16, R, C>::generate(|(i, j)| code(i, j));
    let mut calls = 0usize;
    let u = m.map(|(i, j), v| {
        ensure!(calls < r * c, "map calls the function more than {} times", r * c);
        ensure_eq!((i, j), (calls / c, calls % c), "index in call {} of map over {}x{}", calls, r, c);
        ensure_eq!(v, code(i, j), "entry given to the function for position {:?} of {}x{}", (i, j), r, c);
        calls += 1;
        (calls as u32 * 3, v)
    });
    ctx.step();
    ensure_eq!(calls, r * c, "calls of the function by map over {}x{}", r, c);
    for i in 0..r {
        for j in 0..c {
            ensure_eq!(u[(i, j)], ((i * c + j + 1) as u32 * 3, code(i, j)), "result of map at {:?} of {}x{}", (i, j), r, c);
        }
    }
    ctx.outcome((r, c));
    log!(ctx, "map over {}x{}: {} calls", r, c, calls);
}

/// `transposed` and back.
fn transposed<R, C>(ctx: &mut Ctx)
where
    R: Unsigned + ArrayLen<Vector<u16, C>> + ArrayLen<u16>,
    C: Unsigned + ArrayLen<u16> + ArrayLen<Vector<u16, R>>,
{
    let (r, c) = (<R as Unsigned>::to_usize(), <C as Unsigned>::to_usize());
    let m = Matrix::<u16, R, C>::generate(|(i, j)| code(i, j));
    let t = m.transposed();
    let tt = t.transposed();
    ctx.step();
    ensure_eq!(t.dim(), (c, r), "dimensions of the transpose of {}x{}", r, c);
    for i in 0..r {
        for j in 0..c {
            ensure_eq!(t[(j, i)], code(i, j), "entry {:?} of the transpose of {}x{}", (j, i), r, c);
            ensure_eq!(tt[(i, j)], code(i, j), "entry {:?} of the double transpose of {}x{}", (i, j), r, c);
            ensure_eq!(m[(i, j)], code(i, j), "entry {:?} of a {}x{} matrix after transposed()", (i, j), r, c);
        }
    }
    ctx.outcome((r, c));
    log!(ctx, "transposed {}x{}", r, c);
}

/// In place.
fn transpose<N>(ctx: &mut Ctx)
where
    N: Unsigned + ArrayLen<Vector<Box<u16>, N>> + ArrayLen<Box<u16>>,
{
    let n = <N as Unsigned>::to_usize();
    let mut m = Matrix::<Box<u16>, N, N>::generate(|(i, j)| Box::new(code(i, j)));
    for round in 0..4 {
        m.transpose();
        ctx.step();
        for i in 0..n {
            for j in 0..n {
                let w = if round % 2 == 0 { code(j, i) } else { code(i, j) };
                ensure_eq!(*m[(i, j)], w, "entry {:?} of {}x{} after {} transpose()", (i, j), n, n, round + 1);
            }
        }
    }
    ctx.outcome(n);
    log!(ctx, "transpose {}x{} four times", n, n);
}

/// Conjugation: every combination of signs of the parts at each position (others distinct).
fn conjugate<R, C>(ctx: &mut Ctx)
where
    R: Unsigned + ArrayLen<Vector<Complex<i32>, C>>,
    C: Unsigned + ArrayLen<Complex<i32>>,
{
    let (r, c) = (<R as Unsigned>::to_usize(), <C as Unsigned>::to_usize());
    let n = r * c;
    let kinds = [(0, 0), (0, 3), (0, -3), (5, 0), (-5, 0), (2, 7), (2, -7), (-2, 7), (-2, -7)];
    let at = if n == 0 { 0 } else { ctx.choose(n) };
    let k = *ctx.pick(&kinds);
    let f = |i: usize, j: usize| {
        let p = i * c + j;
        if p == at {
            Complex::new(k.0, k.1)
        } else {
            Complex::new(100 + p as i32, (200 + p as i32) * if p % 3 == 0 { -1 } else { 1 })
        }
    };
    let m = Matrix::<Complex<i32>, R, C>::generate(|(i, j)| f(i, j));
    let d = m.conjugate();
    ctx.step();
    for i in 0..r {
        for j in 0..c {
            let w = f(i, j);
            ensure_eq!((d[(i, j)].re, d[(i, j)].im), (w.re, -w.im), "conjugate of {:?} at {:?} of {}x{}", w, (i, j), r, c);
            ensure_eq!(m[(i, j)], w, "entry {:?} of a {}x{} matrix after conjugate()", (i, j), r, c);
        }
    }
    ctx.outcome((r, c, k));
    log!(ctx, "conjugate {}x{} with {:?} at {}", r, c, k, at);
}

/// Whether it is zero is answered by the environment.
#[derive(Clone, Debug, PartialEq)]
struct Z(bool);
impl Add for Z {
    type Output = Z;
    fn add(self, o: Z) -> Z {
        Z(self.0 && o.0)
    }
}
impl Zero for Z {
    fn zero() -> Z {
        Z(true)
    }
    fn is_zero(&self) -> bool {
        self.0
    }
}

fn zero_matrix<R, C>(ctx: &mut Ctx)
where
    R: Unsigned + ArrayLen<Vector<Z, C>>,
    C: Unsigned + ArrayLen<Z>,
    Matrix<Z, R, C>: Zero,
{
    let (r, c) = (<R as Unsigned>::to_usize(), <C as Unsigned>::to_usize());
    let a = answers(ctx, r * c);
    let m = Matrix::<Z, R, C>::generate(|(i, j)| Z(a[i * c + j]));
    ctx.step();
    ensure_eq!(m.is_zero(), a.iter().all(|x| *x), "is_zero of a {}x{} matrix with zero entries {:?}", r, c, a);
    ctx.outcome((r, c, m.is_zero()));
    log!(ctx, "{}x{} zero {:?}", r, c, a);
}
fn zero_vector<N>(ctx: &mut Ctx)
where
    N: Unsigned + ArrayLen<Z>,
{
    let n = <N as Unsigned>::to_usize();
    let a = answers(ctx, n);
    let v = Vector::<Z, N>::generate(|i| Z(a[i]));
    ctx.step();
    ensure_eq!(v.is_zero(), a.iter().all(|x| *x), "is_zero of a vector with zero elements {:?}", a);
    ctx.outcome((n, v.is_zero()));
    log!(ctx, "{} zero {:?}", n, a);
}

/// Clones on the heap; counts how often it was cloned.
struct E(Box<u16>, Cell<u32>);
impl Clone for E {
    fn clone(&self) -> E {
        self.1.set(self.1.get() + 1);
        E(self.0.clone(), Cell::new(0))
    }
}
fn clone_matrix<R, C>(ctx: &mut Ctx)
where
    R: Unsigned + ArrayLen<Vector<E, C>>,
    C: Unsigned + ArrayLen<E>,
{
    let (r, c) = (<R as Unsigned>::to_usize(), <C as Unsigned>::to_usize());
    let mut m = Matrix::<E, R, C>::generate(|(i, j)| E(Box::new(code(i, j)), Cell::new(0)));
    let mut k = m.clone();
    ctx.step();
    for i in 0..r {
        for j in 0..c {
            ensure_eq!(*k[(i, j)].0, code(i, j), "entry {:?} of a clone of {}x{}", (i, j), r, c);
            ensure_eq!(*m[(i, j)].0, code(i, j), "entry {:?} of the original {}x{}", (i, j), r, c);
            ensure!(!std::ptr::eq(&*k[(i, j)].0, &*m[(i, j)].0), "entry {:?} of a {}x{} matrix is shared with its clone", (i, j), r, c);
        }
    }
    for i in 0..r {
        for j in 0..c {
            *k[(i, j)].0 = 0;
            ensure_eq!(*m[(i, j)].0, code(i, j), "entry {:?} of the original after a write to the clone", (i, j));
            *k[(i, j)].0 = code(i, j);
            *m[(i, j)].0 = 0;
            ensure_eq!(*k[(i, j)].0, code(i, j), "entry {:?} of the clone after a write to the original", (i, j));
            *m[(i, j)].0 = code(i, j);
        }
    }
    drop(m);
    for i in 0..r {
        for j in 0..c {
            ensure_eq!(*k[(i, j)].0, code(i, j), "entry {:?} of a clone after the original was dropped", (i, j));
        }
    }
    ctx.outcome((r, c));
    log!(ctx, "clone {}x{}", r, c);
}
fn clone_vector<N>(ctx: &mut Ctx)
where
    N: Unsigned + ArrayLen<E>,
{
    let n = <N as Unsigned>::to_usize();
    let mut v = Vector::<E, N>::generate(|i| E(Box::new(code(i, 0)), Cell::new(0)));
    let mut k = v.clone();
    ctx.step();
    for i in 0..n {
        ensure_eq!(*k[i].0, code(i, 0), "element {} of a clone of length {}", i, n);
        ensure_eq!(*v[i].0, code(i, 0), "element {} of the original of length {}", i, n);
        *k[i].0 = 0;
        ensure_eq!(*v[i].0, code(i, 0), "element {} of the original after a write to the clone", i);
        *k[i].0 = code(i, 0);
        *v[i].0 = 0;
        ensure_eq!(*k[i].0, code(i, 0), "element {} of the clone after a write to the original", i);
        *v[i].0 = code(i, 0);
    }
    drop(v);
    ensure!((0..n).all(|i| *k[i].0 == code(i, 0)), "a clone of length {} changed when the original was dropped", n);
    ctx.outcome(n);
    log!(ctx, "clone length {}", n);
}

/// Every kind of element that generic code can tell apart.
fn kind_shape<Z: Slot, R, C>(ctx: &mut Ctx)
where
    R: Unsigned + ArrayLen<Vector<kinds::F<Z>, C>> + ArrayLen<kinds::F<Z>> + ArrayLen<Vector<Complex<kinds::F<Z>>, C>> + ArrayLen<Vector<kinds::F<K3>, C>>,
    C: Unsigned + ArrayLen<kinds::F<Z>> + ArrayLen<Vector<kinds::F<Z>, R>> + ArrayLen<Complex<kinds::F<Z>>> + ArrayLen<kinds::F<K3>>,
{
    kinds::reset();
    let (r, c) = (<R as Unsigned>::to_usize(), <C as Unsigned>::to_usize());
    let l = ctx.choose(2);
    let w = |i: usize, j: usize| value(l, i * c + j);
    let m = || Matrix::<kinds::F<Z>, R, C>::generate(|(i, j)| kinds::F::new(w(i, j)));
    let each = |what: &str, f: &dyn Fn(usize, usize) -> (i64, i64)| {
        for i in 0..r {
            for j in 0..c {
                let (g, w) = f(i, j);
                ensure_eq!(g, w, "entry {:?} after {} of {}x{}", (i, j), what, r, c);
            }
        }
    };
    ctx.step();
    match ctx.choose(6) {
        0 => { let t = m().transposed(); each("transposed", &|i, j| (t[(j, i)].v(), w(i, j))); }
        1 => {
            let x = m();
            let t = x.clone();
            each("clone", &|i, j| (t[(i, j)].v(), w(i, j)));
            drop(x);
            each("clone", &|i, j| (t[(i, j)].v(), w(i, j)));
        }
        2 => {
            let mut calls = 0;
            let t = m().map(|(i, j), x| {
                ensure!(calls < r * c, "map calls the function more than {} times", r * c);
                ensure_eq!((i, j), (calls / c, calls % c), "index in call {} of map over {}x{}", calls, r, c);
                calls += 1;
                kinds::F::<K3>::new(x.v() + (2 * i + j) as i64)
            });
            each("map", &|i, j| (t[(i, j)].v(), (w(i, j) + (2 * i + j) as i64) % kinds::Q)); }
        3 => {
            let t = Matrix::<Complex<kinds::F<Z>>, R, C>::generate(|(i, j)| Complex::new(kinds::F::new(w(i, j)), kinds::F::new(w(i, j) + 9))).conjugate();
            each("conjugate (real part)", &|i, j| (t[(i, j)].re.v(), w(i, j)));
            each("conjugate (imaginary part)", &|i, j| (t[(i, j)].im.v(), (-w(i, j) - 9).rem_euclid(kinds::Q)));
        }
        4 => {
            let x = m();
            for at in 0..=r * c {
                let f = |(i, j): (usize, usize), x: &kinds::F<Z>| {
                    ensure_eq!(x.v(), w(i, j), "entry given to the predicate for {:?}", (i, j));
                    i * c + j == at
                };
                ensure_eq!(x.any(f), at < r * c, "any of {}x{}, true at {}", r, c, at);
                ensure_eq!(x.all(|p, x| !f(p, x)), at >= r * c, "all of {}x{}, false at {}", r, c, at);
            }
        }
        _ => {
            for at in 0..=r * c {
                let z = Matrix::<kinds::F<Z>, R, C>::generate(|(i, j)| kinds::F::new((i * c + j == at) as i64));
                ensure_eq!(z.is_zero(), at >= r * c, "is_zero of {}x{} with a one at {}", r, c, at);
            }
        }
    }
    kinds::settle("end");
}
fn kind_length<Z: Slot, N: ArrayLen<kinds::F<Z>> + ArrayLen<Vector<kinds::F<Z>, N>>>(ctx: &mut Ctx) {
    kinds::reset();
    let n = <N as Unsigned>::to_usize();
    let l = ctx.choose(2);
    ctx.step();
    let v = Vector::<kinds::F<Z>, N>::generate(|i| kinds::F::new(value(l, i)));
    let k = v.clone();
    drop(v);
    for i in 0..n {
        ensure_eq!(k[i].v(), value(l, i), "element {} of a clone of length {}", i, n);
    }
    drop(k);
    for at in 0..=n {
        ensure_eq!(Vector::<kinds::F<Z>, N>::generate(|i| kinds::F::new((i == at) as i64)).is_zero(), at >= n, "is_zero of length {} with a one at {}", n, at);
    }
    let mut m = Matrix::<kinds::F<Z>, N, N>::generate(|(i, j)| kinds::F::new(value(l, i * n + j)));
    m.transpose();
    for i in 0..n {
        for j in 0..n {
            ensure_eq!(m[(j, i)].v(), value(l, i * n + j), "entry {:?} after transpose of {}x{}", (j, i), n, n);
        }
    }
    drop(m);
    kinds::settle("end");
}

fn main() {
    let ck = Check::new("C14");
    macro_rules! table {
        ($name:expr, $lists:ident, $push:ident, $f:ident, $b:expr) => {{
            let mut t: Table = vec![];
            $lists!($push, t, $f);
            ck.bound($name, $b);
            explore_table(&ck, $name, &t);
        }};
    }
    table!("all/any", for_mid_shapes, push_shape, predicates, "shapes 0x0..9x9; every pattern of answers up to 9 entries, uniform with at most one exception above");
    table!("all/any on large shapes", for_large_shapes, push_shape, predicates, "selected shapes up to 32x32; uniform with at most one exception");
    #[cfg(feature = "wide")]
    {
        table!("map", for_all_shapes, push_shape, map, "every shape 0x0..32x32");
        table!("transposed", for_all_shapes, push_shape, transposed, "every shape 0x0..32x32");
    }
    #[cfg(not(feature = "wide"))]
    {
        table!("map", for_mid_shapes, push_shape, map, "every shape 0x0..9x9");
        table!("map on large shapes", for_large_shapes, push_shape, map, "selected shapes up to 32x32");
        table!("transposed", for_mid_shapes, push_shape, transposed, "every shape 0x0..9x9");
        table!("transposed on large shapes", for_large_shapes, push_shape, transposed, "selected shapes up to 32x32");
    }
    table!("transpose", for_all_squares, push_len, transpose, "every size 0..=32, one to four times");
    table!("conjugate", for_small_shapes, push_shape, conjugate, "shapes 0x0..4x4 and selected large ones; every sign combination of the parts at every position");
    table!("conjugate on large shapes", for_large_shapes, push_shape, conjugate, "as above");
    table!("is_zero", for_mid_shapes, push_shape, zero_matrix, "shapes 0x0..9x9; every pattern of zero entries up to 9 entries, uniform with at most one exception above");
    table!("is_zero on large shapes", for_large_shapes, push_shape, zero_matrix, "uniform with at most one exception");
    table!("is_zero of vectors", for_lens, push_len, zero_vector, "every length 0..=32");
    table!("clone", for_mid_shapes, push_shape, clone_matrix, "shapes 0x0..9x9, writes at every position on either side");
    table!("clone on large shapes", for_large_shapes, push_shape, clone_matrix, "selected shapes up to 32x32");
    table!("clone of vectors", for_lens, push_len, clone_vector, "every length 0..=32");
    let mut t: Table = vec![];
    for_kinds!(push_kind_shapes, t, kind_shape);
    for_kinds!(push_kind_lens, t, kind_length);
    ck.bound("kinds", format!("every operation for {}, shapes {}, lengths and sizes {}", kinds::KINDS, kinds::SHAPES, kinds::LENS));
    explore_table(&ck, "kinds", &t);
    ck.finish();
}
