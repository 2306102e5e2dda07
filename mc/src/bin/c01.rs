//! C01: ownership over histories of operations on a pool of vectors, matrices and iterators.
use mc::kindops::{self, Runner};
use mc::kinds::{self, *};
use mc::shapes::*;
use mc::tok::{self, Elem, Tok, ZTok};
use num::Complex;
use mc::*;
use rowcol::matrix::Matrix;
use rowcol::prelude::{Cofactor, Determinant, Inverse};
use rowcol::typenum::Unsigned;
use rowcol::vector::{ArrayLen, Chunks, IntoIter, Vector};
use rowcol_mc as mc;
use std::collections::HashSet;
use std::fmt::Write;

/// Element types of this check.
trait Own: Elem + 'static {
    fn ident(&self) -> Option<u32>;
}
impl Own for Tok {
    fn ident(&self) -> Option<u32> {
        self.v();
        Some(self.id())
    }
}
impl Own for ZTok {
    fn ident(&self) -> Option<u32> {
        None
    }
}
impl Own for Box<i64> {
    fn ident(&self) -> Option<u32> {
        Some(&**self as *const i64 as usize as u32)
    }
}

type Pool = Vec<Box<dyn Node>>;

/// Something that owns elements: a container, an iterator or a single element.
trait Node {
    fn name(&self) -> String;
    /// how many elements it owns
    fn owned(&self) -> usize;
    /// identities of those that can be seen
    fn idents(&self, _: &mut Vec<u32>) {}
    /// the number of operations
    fn ops(&self) -> usize;
    /// operation `op`; what it leaves behind
    fn apply(self: Box<Self>, ctx: &mut Ctx, op: usize) -> Pool;
}

fn fresh<T: Own>(ctx: &Ctx) -> T {
    T::make(1 + ctx.decisions() as i64 % 6)
}

struct One<T>(T);
impl<T: Own> Node for One<T> {
    fn name(&self) -> String {
        "element".into()
    }
    fn owned(&self) -> usize {
        1
    }
    fn idents(&self, v: &mut Vec<u32>) {
        v.extend(self.0.ident())
    }
    fn ops(&self) -> usize {
        0
    }
    fn apply(self: Box<Self>, _: &mut Ctx, _: usize) -> Pool {
        vec![self]
    }
}
struct Many<T>(Vec<T>);
impl<T: Own> Node for Many<T> {
    fn name(&self) -> String {
        "list".into()
    }
    fn owned(&self) -> usize {
        self.0.len()
    }
    fn idents(&self, v: &mut Vec<u32>) {
        v.extend(self.0.iter().filter_map(|x| x.ident()))
    }
    fn ops(&self) -> usize {
        0
    }
    fn apply(self: Box<Self>, _: &mut Ctx, _: usize) -> Pool {
        vec![self]
    }
}

/// What depends on the concrete length (chunking, reshaping, arrays) or on arithmetic.
trait VecExtra: Sized {
    fn extra_ops() -> usize {
        0
    }
    fn extra(self, _: &mut Ctx, _: usize) -> Pool {
        unreachable!()
    }
}
fn opt<T: Own>(x: Option<T>) -> Pool {
    match x {
        Some(x) => vec![Box::new(One(x))],
        None => vec![],
    }
}

struct V<T, N: ArrayLen<T>>(Vector<T, N>);
const VOPS: usize = 19;
impl<T: Own, N: Unsigned + ArrayLen<T> + 'static> Node for V<T, N>
where
    V<T, N>: VecExtra,
{
    fn name(&self) -> String {
        format!("Vector<{}, {}>", T::NAME, <N as Unsigned>::to_usize())
    }
    fn owned(&self) -> usize {
        <N as Unsigned>::to_usize()
    }
    fn idents(&self, v: &mut Vec<u32>) {
        v.extend(self.0.iter().filter_map(|x| x.ident()))
    }
    fn ops(&self) -> usize {
        VOPS + <V<T, N> as VecExtra>::extra_ops()
    }
    fn apply(self: Box<Self>, ctx: &mut Ctx, op: usize) -> Pool {
        let n = <N as Unsigned>::to_usize();
        let mut v = self.0;
        match op {
            0 => {
                drop(v);
                vec![]
            }
            1 => {
                let w = v.clone();
                vec![Box::new(V(v)), Box::new(V(w))]
            }
            2 => vec![Box::new(It(v.into_iter()))],
            3 => vec![Box::new(V(Vector::<T, N>::new(v.into_inner())))],
            4 => {
                if n > 0 {
                    let i = ctx.choose(n);
                    v[i] = fresh(ctx);
                }
                vec![Box::new(V(v))]
            }
            5 => {
                let mut out: Pool = vec![];
                if n > 0 {
                    let i = ctx.choose(n);
                    out.push(Box::new(One(std::mem::replace(&mut v.as_slice_mut()[i], fresh(ctx)))));
                }
                out.push(Box::new(V(v)));
                out
            }
            6 => {
                for x in v.iter_mut() {
                    *x = fresh(ctx);
                }
                vec![Box::new(V(v))]
            }
            7 => vec![Box::new(V(v.into_iter().rev().collect::<Vector<T, N>>()))],
            8 => {
                v = Vector::generate(|_| fresh(ctx));
                vec![Box::new(V(v))]
            }
            9 => {
                let w: Vector<T, N> = Vector::generate(|_| fresh(ctx));
                v.clone_from(&w);
                vec![Box::new(V(v)), Box::new(V(w))]
            }
            10 => {
                if n > 1 {
                    v.as_slice_mut().reverse();
                    v.as_mut().swap(0, n - 1);
                }
                vec![Box::new(V(v))]
            }
            11 => vec![Box::new(Many(v.into_iter().map(|x| x).collect()))],
            12 => vec![Box::new(V(v.into_iter().map(|x| { drop(x); T::make(3) }).collect::<Vector<T, N>>()))],
            13 => {
                v.into_iter().for_each(drop);
                vec![]
            }
            14 => vec![Box::new(V(v.iter().cloned().collect::<Vector<T, N>>())), Box::new(V(v))],
            15 => {
                let (a, b): (Vec<(usize, T)>, Vec<(usize, T)>) = v.into_iter().enumerate().partition(|(i, _)| i % 2 == 0);
                vec![Box::new(Many(a.into_iter().map(|x| x.1).collect())), Box::new(Many(b.into_iter().map(|x| x.1).collect()))]
            }
            16 => {
                // too few elements: refused, and what was consumed is dropped
                if n > 0 {
                    let k = ctx.choose(n);
                    let r = catch(|| v.into_iter().take(k).collect::<Vector<T, N>>());
                    ensure!(r.is_err(), "{} elements were accepted for a vector of length {}", k, n);
                    vec![]
                } else {
                    vec![Box::new(V(v))]
                }
            }
            17 => {
                // rejected access does not lose anything
                let r = catch(|| v[n].val());
                ensure!(r.is_err(), "index {} of a vector of length {} was accepted", n, n);
                vec![Box::new(V(v))]
            }
            18 => {
                let b = Box::new(v);
                let w = *b;
                let mut o = Some(w);
                vec![Box::new(V(o.take().unwrap()))]
            }
            _ => V(v).extra(ctx, op - VOPS),
        }
    }
}

struct It<T, N: ArrayLen<T>>(IntoIter<T, N>);
impl<T: Own, N: Unsigned + ArrayLen<T> + 'static> Node for It<T, N>
where
    V<T, N>: VecExtra,
{
    fn name(&self) -> String {
        format!("IntoIter<{}, {}> with {} left", T::NAME, <N as Unsigned>::to_usize(), self.0.len())
    }
    fn owned(&self) -> usize {
        self.0.len()
    }
    fn ops(&self) -> usize {
        17
    }
    fn apply(self: Box<Self>, ctx: &mut Ctx, op: usize) -> Pool {
        let n = <N as Unsigned>::to_usize();
        let mut it = self.0;
        let mut out: Pool = match op {
            0 => {
                drop(it);
                return vec![];
            }
            1 => opt(it.next()),
            2 => opt(it.next_back()),
            3 => opt(it.nth(1)),
            4 => opt(it.nth_back(1)),
            5 => opt(it.nth(n + 1)),
            6 => {
                let l = it.len();
                ensure_eq!(it.count(), l, "count()");
                return vec![];
            }
            7 => return opt(it.last()),
            8 => return vec![Box::new(Many(it.collect::<Vec<T>>()))],
            9 => return vec![Box::new(Many(it.rev().collect::<Vec<T>>()))],
            10 => {
                it.fold((), |_, x| drop(x));
                return vec![];
            }
            11 => {
                if it.len() == n {
                    return vec![Box::new(V(it.collect::<Vector<T, N>>()))];
                }
                let r = catch(|| it.collect::<Vector<T, N>>());
                ensure!(r.is_err(), "a vector of length {} was made from fewer elements", n);
                return vec![];
            }
            12 => vec![Box::new(Many(it.by_ref().take(1).collect::<Vec<T>>()))],
            13 => opt(it.by_ref().skip(1).next()),
            14 => opt(it.by_ref().rev().nth(2)),
            15 => return vec![Box::new(Many(it.step_by(2).collect::<Vec<T>>()))],
            _ => {
                it.by_ref().find(|_| false);
                vec![]
            }
        };
        out.push(Box::new(It(it)));
        out
    }
}

struct Ch<T, N: ArrayLen<T>, I>(Chunks<T, N, I>);
macro_rules! chunk_node {
    ($($N:ident $I:ident),*) => { $(
        impl<T: Own> Node for Ch<T, $N, $I> where V<T, $I>: VecExtra {
            fn name(&self) -> String {
                format!("Chunks<{}, {}, {}> with {} left", T::NAME, stringify!($N), stringify!($I), self.0.len())
            }
            fn owned(&self) -> usize {
                self.0.len() * $I::to_usize()
            }
            fn ops(&self) -> usize {
                9
            }
            fn apply(self: Box<Self>, ctx: &mut Ctx, op: usize) -> Pool {
                let mut it = self.0;
                let got = match op {
                    0 => {
                        drop(it);
                        return vec![];
                    }
                    1 => it.next(),
                    2 => it.next_back(),
                    3 => it.nth(1),
                    4 => it.nth_back(1),
                    5 => return it.last().map(|x| Box::new(V(x)) as Box<dyn Node>).into_iter().collect(),
                    6 => return it.map(|x| Box::new(V(x)) as Box<dyn Node>).collect(),
                    7 => {
                        it.count();
                        return vec![];
                    }
                    _ => return vec![Box::new(Many(it.rev().flat_map(|v| v.into_iter()).collect::<Vec<T>>()))],
                };
                ctx.step();
                let mut out: Pool = vec![Box::new(Ch(it))];
                out.extend(got.map(|x| Box::new(V(x)) as Box<dyn Node>));
                out
            }
        }
    )* };
}
chunk_node!(U1 U1, U2 U1, U2 U2, U3 U3, U4 U2, U4 U4, U6 U2, U6 U3);

struct M<T, R: ArrayLen<Vector<T, C>>, C: ArrayLen<T>>(Matrix<T, R, C>);
/// What depends on arithmetic or on the shape.
trait MatExtra: Sized {
    fn flipped(&self) -> Box<dyn Node>;
    fn extra_ops() -> usize {
        0
    }
    fn extra(self, _: &mut Ctx, _: usize) -> Pool {
        unreachable!()
    }
}
fn mat_idents<T: Own, R, C>(m: &Matrix<T, R, C>, v: &mut Vec<u32>)
where
    R: Unsigned + ArrayLen<Vector<T, C>>,
    C: Unsigned + ArrayLen<T>,
{
    for i in 0..<R as Unsigned>::to_usize() {
        for j in 0..<C as Unsigned>::to_usize() {
            v.extend(m[(i, j)].ident())
        }
    }
}
const MOPS: usize = 15;
impl<T: Own, R, C> Node for M<T, R, C>
where
    R: Unsigned + ArrayLen<Vector<T, C>> + ArrayLen<T> + 'static,
    C: Unsigned + ArrayLen<T> + ArrayLen<Vector<T, R>> + 'static,
    M<T, R, C>: MatExtra,
    V<T, R>: VecExtra,
    V<T, C>: VecExtra,
{
    fn name(&self) -> String {
        format!("Matrix<{}, {}, {}>", T::NAME, <R as Unsigned>::to_usize(), <C as Unsigned>::to_usize())
    }
    fn owned(&self) -> usize {
        <R as Unsigned>::to_usize() * <C as Unsigned>::to_usize()
    }
    fn idents(&self, v: &mut Vec<u32>) {
        mat_idents(&self.0, v)
    }
    fn ops(&self) -> usize {
        MOPS + <M<T, R, C> as MatExtra>::extra_ops()
    }
    fn apply(self: Box<Self>, ctx: &mut Ctx, op: usize) -> Pool {
        let (r, c) = (<R as Unsigned>::to_usize(), <C as Unsigned>::to_usize());
        let mut m = self.0;
        let mut out: Pool = vec![];
        match op {
            0 => {
                drop(m);
                return vec![];
            }
            1 => out.push(Box::new(M(m.clone()))),
            2 => {
                let k = M(m);
                out.push(k.flipped());
                m = k.0;
            }
            3 => return vec![Box::new(M(m.map(|_, x| x)))],
            4 => return vec![Box::new(M(m.map(|_, x| { drop(x); T::make(2) })))],
            5 => {
                if r * c > 0 {
                    let (i, j) = (ctx.choose(r), ctx.choose(c));
                    m[(i, j)] = fresh(ctx);
                }
            }
            6 => {
                if r * c > 0 {
                    let (i, j) = (ctx.choose(r), ctx.choose(c));
                    let x = std::mem::replace(unsafe { m.get_unchecked_mut((i, j)) }, fresh(ctx));
                    out.push(Box::new(One(x)));
                }
            }
            7 => {
                m = Matrix::generate(|_| fresh(ctx));
            }
            8 => {
                // some rows, by value; the rest is never produced
                let mut it = m.rows_iter();
                for _ in 0..ctx.choose(r + 1) {
                    out.extend(it.next().map(|v| Box::new(V(v)) as Box<dyn Node>));
                }
                out.extend(it.next_back().map(|v| Box::new(V(v)) as Box<dyn Node>));
            }
            9 => {
                let mut it = m.cols_iter();
                for _ in 0..ctx.choose(c + 1) {
                    out.extend(it.next_back().map(|v| Box::new(V(v)) as Box<dyn Node>));
                }
                out.extend(it.next().map(|v| Box::new(V(v)) as Box<dyn Node>));
            }
            10 => {
                let mut x = vec![];
                for row in m.rows_iter_ref() {
                    x.extend(row.iter().cloned());
                }
                for col in m.cols_iter_ref() {
                    x.extend(col.rev().cloned());
                }
                out.push(Box::new(Many(x)));
            }
            11 => {
                let w: Matrix<T, R, C> = Matrix::generate(|_| fresh(ctx));
                m.clone_from(&w);
                out.push(Box::new(M(w)));
            }
            12 => {
                m.all(|_, x| x.val() < 0);
                m.any(|_, x| x.val() < 0);
                let rows: Vector<Vector<T, C>, R> = m.rows_iter().collect();
                let flat: Vec<T> = rows.into_iter().flat_map(|v| v.into_iter()).collect();
                out.push(Box::new(Many(flat)));
            }
            13 => {
                let r0 = catch(|| m[(r, 0)].val());
                let r1 = catch(|| m[(0, c)].val());
                ensure!(r0.is_err() && r1.is_err(), "an out-of-range index of a {}x{} matrix was accepted", r, c);
            }
            14 => {
                let b = vec![m];
                m = b.into_iter().next().unwrap();
            }
            _ => return M(m).extra(ctx, op - MOPS),
        }
        out.push(Box::new(M(m)));
        out
    }
}

/// Concrete lengths: chunking, reshaping, arrays.
macro_rules! shapes_of {
    ($T:ident; $($N:ident $n:expr => [$($I:ident)*] [$($R:ident $C:ident)*];)*) => { $(
        impl VecExtra for V<$T, $N> {
            fn extra_ops() -> usize {
                #[allow(unused_mut)]
                let mut k = 1;
                $( k += $I::to_usize() * 0 + 1; )*
                $( k += $R::to_usize() * 0 + 1; )*
                k + <V<$T, $N>>::arith()
            }
            fn extra(self, ctx: &mut Ctx, op: usize) -> Pool {
                #[allow(unused_mut)]
                let mut k = 0;
                if op == k {
                    let a: [$T; $n] = self.0.into_inner();
                    let a = a.map(|x| x);
                    return vec![Box::new(V(Vector::<$T, $N>::new(a)))];
                }
                $( k += 1; if op == k { return vec![Box::new(Ch(self.0.into_chunks::<$I>()))]; } )*
                $( k += 1; if op == k { return vec![Box::new(M(Matrix::<$T, $R, $C>::from(self.0)))]; } )*
                self.arithmetic(ctx, op - k - 1)
            }
        }
    )* };
}
macro_rules! lens {
    ($T:ident) => {
        shapes_of! { $T;
            U0 0 => [] [];
            U1 1 => [U1] [U1 U1];
            U2 2 => [U1 U2] [U1 U2 U2 U1];
            U3 3 => [U3] [];
            U4 4 => [U2 U4] [U2 U2];
            U6 6 => [U2 U3] [U2 U3 U3 U2];
        }
    };
}
lens!(Tok);
lens!(ZTok);
lens!(BoxedI);
macro_rules! more_lens {
    ($T:ident) => {
        shapes_of! { $T;
            U5 5 => [] [];
            U7 7 => [] [];
            U8 8 => [] [];
            U9 9 => [] [];
            U10 10 => [] [];
            U11 11 => [] [];
            U12 12 => [] [];
            U13 13 => [] [];
            U14 14 => [] [];
            U15 15 => [] [];
            U16 16 => [] [];
            U17 17 => [] [];
            U18 18 => [] [];
            U19 19 => [] [];
            U20 20 => [] [];
            U21 21 => [] [];
            U22 22 => [] [];
            U23 23 => [] [];
            U24 24 => [] [];
            U25 25 => [] [];
            U26 26 => [] [];
            U27 27 => [] [];
            U28 28 => [] [];
            U29 29 => [] [];
            U30 30 => [] [];
            U31 31 => [] [];
            U32 32 => [] [];
        }
    };
}
more_lens!(Tok);
more_lens!(ZTok);
type BoxedI = Box<i64>;

/// Arithmetic needs the ring operations, which only `Tok` has here.
trait Arith: Sized {
    fn arith() -> usize {
        0
    }
    fn arithmetic(self, _: &mut Ctx, _: usize) -> Pool {
        unreachable!()
    }
}
impl<N: ArrayLen<ZTok>> Arith for V<ZTok, N> {}
impl<N: ArrayLen<BoxedI>> Arith for V<BoxedI, N> {}

fn text(x: impl std::fmt::Debug) {
    let mut s = String::new();
    let _ = write!(s, "{:?}", x);
}
macro_rules! keep {
    ($($x:expr),*) => { vec![$(Box::new($x) as Box<dyn Node>),*] };
}
impl<N: Unsigned + ArrayLen<Tok> + 'static> Arith for V<Tok, N>
where
    V<Tok, N>: VecExtra + MaxMin,
{
    fn arith() -> usize {
        22 + <V<Tok, N> as MaxMin>::cnt()
    }
    fn arithmetic(self, ctx: &mut Ctx, op: usize) -> Pool {
        let mut v = self.0;
        let w: Vector<Tok, N> = Vector::generate(|i| Tok::new(1 + i as i64 % 5));
        match op {
            0 => keep![V(v + w)],
            1 => keep![V(v - &w), V(w)],
            2 => keep![V(&v + w), V(v)],
            3 => keep![V(&v - &w), V(v), V(w)],
            4 => {
                v += w;
                keep![V(v)]
            }
            5 => {
                v -= w;
                keep![V(v)]
            }
            6 => keep![V(v * fresh::<Tok>(ctx))],
            7 => {
                v *= fresh::<Tok>(ctx);
                keep![V(v)]
            }
            8 => keep![V(v / fresh::<Tok>(ctx))],
            9 => {
                v /= fresh::<Tok>(ctx);
                keep![V(v)]
            }
            10 => keep![V(-v)],
            11 => keep![One(v.dot(&w)), V(v)],
            12 => keep![One(v.sum()), V(w)],
            13 => keep![V(v.clamped(Tok::new(2), Tok::new(4))), V(v)],
            14 => {
                v.clamp(Tok::new(2), Tok::new(4));
                keep![V(v)]
            }
            15 => {
                let _ = v == w;
                let _ = v != v;
                keep![V(v)]
            }
            16 => {
                text(&v);
                keep![V(v)]
            }
            17 => {
                v = Default::default();
                keep![V(v)]
            }
            18 => {
                use num::Zero;
                v = Vector::zero();
                let _ = v.is_zero() || w.is_zero();
                keep![V(v), V(w)]
            }
            19 => {
                use num::Bounded;
                v = Vector::max_value();
                keep![V(v), V(Vector::<Tok, N>::min_value())]
            }
            20 => {
                let r = catch(|| v / Tok::new(0));
                ensure!(r.is_err() || <N as Unsigned>::to_usize() == 0, "division by a zero element returned");
                drop(r);
                keep![V(w)]
            }
            21 => {
                let r = catch(|| {
                    v /= Tok::new(0);
                });
                ensure!(r.is_err() || <N as Unsigned>::to_usize() == 0, "division by a zero element returned");
                keep![V(v)]
            }
            _ => V(v).max_min(ctx, op - 22),
        }
    }
}
/// Operations of vectors of positive length (and the cross product of length three).
trait MaxMin: Sized {
    fn cnt() -> usize {
        0
    }
    fn max_min(self, _: &mut Ctx, _: usize) -> Pool {
        unreachable!()
    }
}
impl MaxMin for V<Tok, U0> {}
macro_rules! max_min {
    ($($N:ident $extra:expr, |$v:ident| $cross:expr;)*) => { $(
        impl MaxMin for V<Tok, $N> {
            fn cnt() -> usize {
                4 + $extra
            }
            fn max_min(self, _: &mut Ctx, op: usize) -> Pool {
                let v = self.0;
                match op {
                    0 => keep![One(v.max()), V(v)],
                    1 => keep![One(v.min()), V(v)],
                    2 => keep![One(v.max_by(|a, b| a.cmp(b))), V(v)],
                    3 => keep![One(v.min_by(|a, b| b.cmp(a))), V(v)],
                    _ => {
                        let $v = v;
                        $cross
                    }
                }
            }
        }
    )* };
}
max_min! {
    U1 0, |_v| unreachable!();
    U2 0, |_v| unreachable!();
    U3 1, |v| { let c = v.cross(&v); keep![V(c), V(v)] };
    U4 0, |_v| unreachable!();
    U6 0, |_v| unreachable!();
    U5 0, |_v| unreachable!();
    U7 0, |_v| unreachable!();
    U8 0, |_v| unreachable!();
    U9 0, |_v| unreachable!();
    U10 0, |_v| unreachable!();
    U11 0, |_v| unreachable!();
    U12 0, |_v| unreachable!();
    U13 0, |_v| unreachable!();
    U14 0, |_v| unreachable!();
    U15 0, |_v| unreachable!();
    U16 0, |_v| unreachable!();
    U17 0, |_v| unreachable!();
    U18 0, |_v| unreachable!();
    U19 0, |_v| unreachable!();
    U20 0, |_v| unreachable!();
    U21 0, |_v| unreachable!();
    U22 0, |_v| unreachable!();
    U23 0, |_v| unreachable!();
    U24 0, |_v| unreachable!();
    U25 0, |_v| unreachable!();
    U26 0, |_v| unreachable!();
    U27 0, |_v| unreachable!();
    U28 0, |_v| unreachable!();
    U29 0, |_v| unreachable!();
    U30 0, |_v| unreachable!();
    U31 0, |_v| unreachable!();
    U32 0, |_v| unreachable!();
}

/// Matrix shapes.
macro_rules! mat_struct {
    ($T:ident: $($R:ident $C:ident),*) => { $( impl MatExtra for M<$T, $R, $C> {
        fn flipped(&self) -> Box<dyn Node> {
            Box::new(M::<$T, $C, $R>(self.0.transposed()))
        }
    } )* };
}
mat_struct!(ZTok: U0 U0, U0 U2, U2 U0, U1 U1, U1 U2, U2 U1, U2 U2, U2 U3, U3 U2, U3 U3, U4 U4, U5 U5, U1 U9, U9 U1, U2 U17, U17 U2, U8 U3, U3 U8, U0 U5, U5 U0);
mat_struct!(BoxedI: U0 U0, U0 U2, U2 U0, U1 U1, U1 U2, U2 U1, U2 U2, U2 U3, U3 U2, U3 U3);
macro_rules! mat_arith {
    ($($R:ident $C:ident [$($sq:tt)*];)*) => { $(
        impl MatExtra for M<Tok, $R, $C> {
            fn flipped(&self) -> Box<dyn Node> {
                Box::new(M::<Tok, $C, $R>(self.0.transposed()))
            }
            fn extra_ops() -> usize {
                26 + mat_arith!(@count $($sq)*)
            }
            fn extra(self, ctx: &mut Ctx, op: usize) -> Pool {
                use num::{Bounded, Zero};
                let mut m = self.0;
                let w: Matrix<Tok, $R, $C> = Matrix::generate(|(i, j)| Tok::new((1 + i + 2 * j) as i64 % 7));
                let u: Matrix<Tok, $C, $R> = Matrix::generate(|(i, j)| Tok::new((2 + i + j) as i64 % 7));
                match op {
                    0 => keep![M(m + w)],
                    1 => keep![M(m - &w), M(w)],
                    2 => keep![M(&m + w), M(m)],
                    3 => keep![M(&m - &w), M(m), M(w)],
                    4 => { m += w; keep![M(m)] }
                    5 => { m -= w; keep![M(m)] }
                    6 => keep![M(-m)],
                    7 => keep![M(m * fresh::<Tok>(ctx))],
                    8 => { let t = fresh::<Tok>(ctx); keep![M(m * &t), One(t)] }
                    9 => { m *= fresh::<Tok>(ctx); keep![M(m)] }
                    10 => keep![M(m / fresh::<Tok>(ctx))],
                    11 => { let t = fresh::<Tok>(ctx); keep![M(m / &t), One(t)] }
                    12 => { m /= fresh::<Tok>(ctx); keep![M(m)] }
                    13 => { let p = m * u; let mut s: Pool = vec![]; s.push(Box::new(Many(p.rows_iter().flat_map(|v| v.into_iter()).collect::<Vec<Tok>>()))); s }
                    14 => { let p = &m * &u; keep![Many(p.rows_iter().flat_map(|v| v.into_iter()).collect::<Vec<Tok>>()), M(m), M(u)] }
                    15 => { let p = m * &u; keep![Many(p.rows_iter().flat_map(|v| v.into_iter()).collect::<Vec<Tok>>()), M(u)] }
                    16 => { let p = &m * u; keep![Many(p.rows_iter().flat_map(|v| v.into_iter()).collect::<Vec<Tok>>()), M(m)] }
                    17 => { let v: Vector<Tok, $C> = Vector::generate(|_| fresh(ctx)); keep![V(m * v)] }
                    18 => { let v: Vector<Tok, $C> = Vector::generate(|_| fresh(ctx)); keep![V(m * &v), V(v)] }
                    19 => keep![One(m.sum()), M(m)],
                    20 => { let k = m.clamped(Tok::new(1), Tok::new(3)); m.clamp(Tok::new(2), Tok::new(2)); keep![M(k), M(m)] }
                    21 => { let _ = m == w; let _ = m != m; keep![M(m)] }
                    22 => { let mut s = String::new(); let _ = write!(s, "{:?} {}", m, m); keep![M(m)] }
                    23 => { m = Default::default(); let _ = m.is_zero(); keep![M(Matrix::<Tok, $R, $C>::zero()), M(m)] }
                    24 => { m = Matrix::max_value(); keep![M(Matrix::<Tok, $R, $C>::min_value()), M(m)] }
                    25 => { let _ = approx::ApproxEq::relative_eq(&m, &w, 0, 0) || approx::ApproxEq::ulps_ne(&m, &w, 0, 0); keep![M(m), M(w)] }
                    op => mat_arith!(@ops op - 26, ctx, m, w; $($sq)*),
                }
            }
        }
    )* };
    (@count) => { 0 };
    (@count zero $N:ident) => { 4 };
    (@count sq $N:ident $n:expr) => { 11 };
    (@count cof $N:ident $n:expr) => { 12 };
    (@ops $op:expr, $ctx:ident, $m:ident, $w:ident;) => { { let _ = $op; unreachable!() } };
    (@ops $op:expr, $ctx:ident, $m:ident, $w:ident; zero $N:ident) => {
        match $op {
            0 => { $m *= $w; keep![M($m)] }
            1 => { $m.transpose(); keep![M($m)] }
            2 => keep![M($m.pow($ctx.choose(4))), M($m)],
            _ => keep![M($m), M(Matrix::<Tok, $N, $N>::identity())],
        }
    };
    (@ops $op:expr, $ctx:ident, $m:ident, $w:ident; sq $N:ident $n:expr) => {
        match $op {
            0 => { $m *= $w; keep![M($m)] }
            1 => { $m.transpose(); keep![M($m)] }
            2 => keep![M($m.pow($ctx.choose(4))), M($m)],
            3 => keep![M(Matrix::<Tok, $N, $N>::identity()), M($m)],
            4 => keep![One($m.determinant()), M($m)],
            5 => match $m.inverse() { Some(i) => keep![M(i), M($m)], None => keep![M($m)] },
            6 => keep![One($m.max()), One($m.min()), M($m)],
            7 => keep![One($m.max_by(|a, b| b.cmp(a))), One($m.min_by(|a, b| a.cmp(b))), M($m)],
            8 => { $m = Matrix::<Tok, $N, $N>::diag(std::array::from_fn::<_, $n, _>(|_| fresh($ctx))); keep![M($m)] }
            9 => { let r = catch(|| { $m /= Tok::new(0); }); ensure!(r.is_err(), "division by a zero element returned"); keep![M($m)] }
            _ => { $m = num::One::one(); keep![M($m), M($w)] }
        }
    };
    (@ops $op:expr, $ctx:ident, $m:ident, $w:ident; cof $N:ident $n:expr) => {
        match $op {
            0 => { let at = ($ctx.choose($n), $ctx.choose($n)); keep![One($m.cofactor(at)), M($m)] }
            k => mat_arith!(@ops k - 1, $ctx, $m, $w; sq $N $n),
        }
    };
}
mat_arith! {
    U0 U0 [zero U0];
    U0 U2 [];
    U2 U0 [];
    U1 U1 [sq U1 1];
    U1 U2 [];
    U2 U1 [];
    U2 U2 [cof U2 2];
    U2 U3 [];
    U3 U2 [];
    U3 U3 [cof U3 3];
    U4 U4 [cof U4 4];
    U5 U5 [cof U5 5];
    U1 U9 [];
    U9 U1 [];
    U2 U17 [];
    U17 U2 [];
    U8 U3 [];
    U3 U8 [];
    U0 U5 [];
    U5 U0 [];
}

fn verify<T: Own>(pool: &Pool, what: &str) {
    let owned: usize = pool.iter().map(|n| n.owned()).sum();
    if T::COUNTED {
        tok::verify(owned as i64, what);
    }
    let mut ids = vec![];
    for n in pool {
        n.idents(&mut ids);
    }
    let k = ids.len();
    let set: HashSet<u32> = ids.into_iter().collect();
    if T::COUNTED {
        ensure_eq!(set.len(), k, "{}: distinct elements", what);
        // reading them must not have touched dead ones
        tok::verify(owned as i64, what);
    }
}

/// Histories of at most `depth` operations on at most `width` objects, from one initial object.
fn history<T: Own>(ctx: &mut Ctx, start: Box<dyn Node>, depth: usize, width: usize) {
    let mut pool: Pool = vec![start];
    let mut done = vec![];
    verify::<T>(&pool, "after building it");
    for _ in 0..depth {
        // objects that can still do something, the latest first
        let live: Vec<usize> = (0..pool.len()).filter(|i| pool[*i].ops() > 0).collect();
        if live.is_empty() {
            break;
        }
        let live = &live[live.len().saturating_sub(width)..];
        let i = live[ctx.choose(live.len())];
        let node = pool.remove(i);
        let op = ctx.choose(node.ops());
        let name = node.name();
        log!(ctx, "operation {} of {}", op, name);
        let what = format!("operation {} of {}", op, name);
        match catch(|| node.apply(ctx, op)) {
            Ok(left) => pool.extend(left),
            Err(e) => mc::fail(format!("{} panicked: {:?}", what, e)),
        }
        ctx.step();
        verify::<T>(&pool, &what);
        done.push((name, op));
        ctx.state(pool.iter().map(|n| n.name()).collect::<Vec<_>>());
    }
    ctx.outcome(&done);
    // the remaining objects are dropped from either end
    if done.len() < 3 && ctx.flip() {
        pool.reverse();
    }
    while let Some(n) = pool.pop() {
        drop(n);
        if T::COUNTED {
            tok::verify(pool.iter().map(|n| n.owned() as i64).sum(), "dropping what was left");
        }
    }
    log!(ctx, "everything dropped");
    if T::COUNTED {
        tok::verify(0, "after dropping everything");
    }
}

fn start_vec<T: Own, N: Unsigned + ArrayLen<T> + 'static>() -> Box<dyn Node>
where
    V<T, N>: VecExtra,
{
    Box::new(V(Vector::<T, N>::generate(|i| T::make(i as i64 % 6 + 1))))
}
fn start_mat<T: Own, R, C>() -> Box<dyn Node>
where
    R: Unsigned + ArrayLen<Vector<T, C>>,
    C: Unsigned + ArrayLen<T>,
    M<T, R, C>: Node,
    R: 'static,
    C: 'static,
{
    Box::new(M(Matrix::<T, R, C>::generate(|(i, j)| T::make(((i * 3 + j * j) as i64 + 2) % 7))))
}
type Start = (&'static str, fn() -> Box<dyn Node>);
fn starts<T: Own>(f: &dyn Fn() -> Vec<Start>) -> Vec<Start> {
    f()
}
macro_rules! starts {
    ($T:ident) => {
        starts::<$T>(&|| {
            vec![
                ("U0", start_vec::<$T, U0>),
                ("U1", start_vec::<$T, U1>),
                ("U2", start_vec::<$T, U2>),
                ("U3", start_vec::<$T, U3>),
                ("U4", start_vec::<$T, U4>),
                ("U6", start_vec::<$T, U6>),
                ("0x0", start_mat::<$T, U0, U0>),
                ("0x2", start_mat::<$T, U0, U2>),
                ("2x0", start_mat::<$T, U2, U0>),
                ("1x1", start_mat::<$T, U1, U1>),
                ("1x2", start_mat::<$T, U1, U2>),
                ("2x1", start_mat::<$T, U2, U1>),
                ("2x2", start_mat::<$T, U2, U2>),
                ("2x3", start_mat::<$T, U2, U3>),
                ("3x2", start_mat::<$T, U3, U2>),
                ("3x3", start_mat::<$T, U3, U3>),
            ]
        })
    };
}
macro_rules! push_start {
    ($N:ident, $n:expr, $v:ident, $T:ident) => {
        $v.push((stringify!($N), start_vec::<$T, $N> as fn() -> Box<dyn Node>));
    };
}
macro_rules! large_starts {
    ($T:ident) => {{
        let mut v: Vec<Start> = vec![];
        for_lens!(push_start, v, $T);
        v.push(("4x4", start_mat::<$T, U4, U4>));
        v.push(("5x5", start_mat::<$T, U5, U5>));
        v.push(("1x9", start_mat::<$T, U1, U9>));
        v.push(("9x1", start_mat::<$T, U9, U1>));
        v.push(("2x17", start_mat::<$T, U2, U17>));
        v.push(("17x2", start_mat::<$T, U17, U2>));
        v.push(("8x3", start_mat::<$T, U8, U3>));
        v.push(("3x8", start_mat::<$T, U3, U8>));
        v.push(("0x5", start_mat::<$T, U0, U5>));
        v.push(("5x0", start_mat::<$T, U5, U0>));
        v
    }};
}
fn run<T: Own>(ck: &Check, name: &str, starts: &[Start], depth: usize, width: usize) {
    ck.bound(name, format!("every history of at most {} operations (on the {} latest objects) from {} initial objects", depth, width, starts.len()));
    ck.explore(name, |ctx| {
        tok::reset();
        let (n, s) = starts[ctx.choose(starts.len())];
        log!(ctx, "start with {} of {}", n, T::NAME);
        history::<T>(ctx, s(), depth, width);
    });
}

/// Elements of every size and alignment, with and without a destructor.
struct Plain;
impl Runner for Plain {
    fn op<T>(&self, name: &str, f: impl FnOnce() -> T) -> Option<T> {
        match catch(f) {
            Ok(v) => Some(v),
            Err(e) => mc::fail(format!("{} panicked: {:?}", name, e)),
        }
    }
}
fn kind(ctx: &mut Ctx, ops: usize, f: &dyn Fn(usize)) {
    let op = ctx.choose(ops);
    ctx.step();
    log!(ctx, "operation {}", op);
    kinds::reset();
    f(op);
    kinds::verify("after dropping everything");
    ctx.state(op);
}
fn kind_vector<Z: Slot, N: ArrayLen<kinds::F<Z>>>(ctx: &mut Ctx) {
    kind(ctx, kindops::VECTOR, &|op| kindops::vector::<Z, N, Plain>(&Plain, op));
}
fn kind_matrix<Z: Slot, R, C>(ctx: &mut Ctx)
where
    R: ArrayLen<Vector<kinds::F<Z>, C>> + ArrayLen<kinds::F<Z>> + ArrayLen<Vector<Complex<kinds::F<Z>>, C>> + ArrayLen<Vector<kinds::F<Z>, R>>,
    C: ArrayLen<kinds::F<Z>> + ArrayLen<Vector<kinds::F<Z>, R>> + ArrayLen<Complex<kinds::F<Z>>>,
{
    kind(ctx, kindops::MATRIX, &|op| kindops::matrix::<Z, R, C, Plain>(&Plain, op));
}
fn kind_fixed<Z: Slot>(ctx: &mut Ctx) {
    kind(ctx, kindops::SQUARE, &|op| kindops::fixed::<Z, Plain>(&Plain, op));
}
macro_rules! kinds_table {
    ($S:ident, $t:ident) => {
        kinds_table!(@ $t $S kind_vector U0, kind_vector U1, kind_vector U2, kind_vector U3, kind_vector U4, kind_vector U8, kind_vector U17, kind_vector U32);
        kinds_table!(@ $t $S kind_matrix U1 U1, kind_matrix U2 U3, kind_matrix U3 U2, kind_matrix U3 U3, kind_matrix U1 U5, kind_matrix U5 U1);
        kinds_table!(@ $t $S kind_fixed);
    };
    (@ $t:ident $S:ident $($f:ident $($N:ident)*),*) => { $( $t.push((concat!(stringify!($S), ": ", $(stringify!($N), " "),*), $f::<$S $(, $N)*> as fn(&mut Ctx))); )* };
}
fn run_kinds(ck: &Check) {
    let mut t: Table = vec![];
    if cfg!(miri) {
        t.push(("KD5^3", kind_vector::<KD5, U3>));
        t.push(("K24^2", kind_vector::<K24, U2>));
        t.push(("KD32a16: 2x3", kind_matrix::<KD32a16, U2, U3>));
        t.push(("K2: fixed", kind_fixed::<K2>));
        ck.bound("kinds", "four kinds of elements: 30 operations on lengths 2 and 3, 26 on 2x3, 12 on fixed ones");
    } else {
        for_kinds!(kinds_table, t);
        ck.bound("kinds", format!("{}: 30 operations on lengths 0, 1, 2, 3, 4, 8, 17, 32, 26 on six shapes, 12 on fixed ones", kinds::KINDS));
    }
    explore_table(ck, "kinds", &t);
}

fn main() {
    let ck = Check::new("C01");
    if cfg!(miri) {
        run::<Box<i64>>(&ck, "boxed elements", &starts!(BoxedI)[2..3], 1, 2);
        run::<Tok>(&ck, "tracked elements", &[starts!(Tok)[3], starts!(Tok)[12]], 1, 2);
        run::<ZTok>(&ck, "zero-sized elements", &[starts!(ZTok)[2], starts!(ZTok)[12]], 1, 2);
    } else {
        run::<Tok>(&ck, "tracked elements, all lengths", &large_starts!(Tok), ck.by_tier(1, 2, 2), 2);
        run::<ZTok>(&ck, "zero-sized elements, all lengths", &large_starts!(ZTok), ck.by_tier(1, 2, 2), 2);
        run::<Tok>(&ck, "tracked elements", &starts!(Tok), ck.by_tier(1, 3, 4), 3);
        run::<ZTok>(&ck, "zero-sized elements", &starts!(ZTok), ck.by_tier(1, 3, 4), 3);
        run::<Box<i64>>(&ck, "boxed elements", &starts!(BoxedI), ck.by_tier(1, 2, 3), 3);
        let few: Vec<Start> = starts!(Tok).into_iter().filter(|s| s.0 == "U2" || ck.thorough && s.0 == "U4").collect();
        run::<Tok>(&ck, "tracked elements, deeper", &few, ck.by_tier(1, 4, 5), 1);
    }
    run_kinds(&ck);
    ck.finish();
}
