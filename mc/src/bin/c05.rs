#![allow(unused_macros)]
//! C05: `into_chunks` against a double-ended queue of runs, and `Matrix::from(Vector)`.
use mc::kinds::{self, *};
use mc::shapes::*;
use mc::tok::{self, Elem, Tok, Wide, ZTok};
use mc::*;
use rowcol::prelude::{Matrix, Vector};
use rowcol::typenum::{Mod, Prod, Same};
use rowcol::vector::ArrayLen;
use rowcol_mc as mc;
use std::ops::{Mul, Rem};

fn val<T: Elem>(i: usize) -> i64 {
    (i as i64 + 1) % T::VALUES
}

fn run<T: Elem, N, I>(ctx: &mut Ctx, o: seq::Opts)
where
    N: ArrayLen<T> + Rem<I>,
    I: ArrayLen<T>,
    Mod<N, I>: Same<U0>,
{
    tok::reset();
    let (n, k) = (N::to_usize(), I::to_usize());
    let all: Vec<i64> = (0..n).map(val::<T>).collect();
    let model: Vec<Vec<i64>> = all.chunks(k).map(|c| c.to_vec()).collect();
    let v = Vector::<T, N>::generate(|i| T::make(val::<T>(i)));
    let view = |x: Vector<T, I>| -> Vec<i64> { x.into_iter().map(|e| e.val()).collect() };
    seq::drive(ctx, seq::seq(v.into_chunks::<I>(), view), model, o, &|held, when| {
        tok::verify(if T::COUNTED { (held * k) as i64 } else { 0 }, when)
    });
    tok::verify(0, "end");
}

/// Chunks taken from the front, from the back and the rest, kept alive, concatenate to the vector.
fn kept<T: Elem, N, I>(ctx: &mut Ctx)
where
    N: ArrayLen<T> + Rem<I>,
    I: ArrayLen<T>,
    Mod<N, I>: Same<U0>,
{
    tok::reset();
    let (n, k) = (N::to_usize(), I::to_usize());
    let all: Vec<i64> = (0..n).map(val::<T>).collect();
    let c = n / k;
    let f = ctx.choose(c + 1);
    let b = ctx.choose(c - f + 1);
    log!(ctx, "{} chunks of {} from the front, {} from the back of {}", f, k, b, c);
    let mut it = Vector::<T, N>::generate(|i| T::make(val::<T>(i))).into_chunks::<I>();
    let mut front: Vec<Vector<T, I>> = vec![];
    let mut back: Vec<Vector<T, I>> = vec![];
    for _ in 0..f {
        front.extend(it.next());
        ctx.step();
    }
    for _ in 0..b {
        back.extend(it.next_back());
        ctx.step();
    }
    tok::verify(if T::COUNTED { n as i64 } else { 0 }, "with the chunks kept");
    ensure_eq!(it.len(), c - f - b, "len of the rest");
    let rest: Vec<Vector<T, I>> = it.take(c + 1).collect();
    let got: Vec<i64> =
        front.into_iter().chain(rest).chain(back.into_iter().rev()).flat_map(|c| c.into_iter().map(|e| e.val())).collect();
    ensure_eq!(got, all, "concatenation of the chunks");
    tok::verify(0, "end");
}

fn hist<T: Elem, N, I>(ctx: &mut Ctx)
where
    N: ArrayLen<T> + Rem<I>,
    I: ArrayLen<T>,
    Mod<N, I>: Same<U0>,
{
    run::<T, N, I>(ctx, seq::Opts { depth: 3, after: 1, offset: false, sparse: false })
}
fn tiny<T: Elem, N, I>(ctx: &mut Ctx)
where
    N: ArrayLen<T> + Rem<I>,
    I: ArrayLen<T>,
    Mod<N, I>: Same<U0>,
{
    run::<T, N, I>(ctx, seq::Opts { depth: 1, after: 1, offset: false, sparse: true })
}
fn deep<T: Elem, N, I>(ctx: &mut Ctx)
where
    N: ArrayLen<T> + Rem<I>,
    I: ArrayLen<T>,
    Mod<N, I>: Same<U0>,
{
    run::<T, N, I>(ctx, seq::Opts { depth: 5, after: 2, offset: false, sparse: false })
}
fn every<T: Elem, N, I>(ctx: &mut Ctx)
where
    N: ArrayLen<T> + Rem<I>,
    I: ArrayLen<T>,
    Mod<N, I>: Same<U0>,
{
    run::<T, N, I>(ctx, seq::Opts { depth: 1, after: 1, offset: true, sparse: true })
}
fn every2<T: Elem, N, I>(ctx: &mut Ctx)
where
    N: ArrayLen<T> + Rem<I>,
    I: ArrayLen<T>,
    Mod<N, I>: Same<U0>,
{
    run::<T, N, I>(ctx, seq::Opts { depth: 2, after: 1, offset: true, sparse: false })
}

fn reshape<T: Elem, R, C>(ctx: &mut Ctx)
where
    R: ArrayLen<Vector<T, C>> + Mul<C>,
    C: ArrayLen<T>,
    Prod<R, C>: ArrayLen<T> + Rem<C>,
    Mod<Prod<R, C>, C>: Same<U0>,
{
    tok::reset();
    let (r, c) = (R::to_usize(), C::to_usize());
    let held = if T::COUNTED { (r * c) as i64 } else { 0 };
    let v = Vector::<T, Prod<R, C>>::generate(|i| T::make(val::<T>(i)));
    let m: Matrix<T, R, C> = if ctx.flip() { v.into() } else { Matrix::from(v) };
    tok::verify(held, "Matrix::from");
    ctx.step();
    for i in 0..r {
        for j in 0..c {
            ensure_eq!(m[(i, j)].val(), val::<T>(i * c + j), "entry ({}, {}) of the {}x{} matrix", i, j, r, c);
        }
    }
    ensure_eq!(m.dim(), (r, c), "dim");
    drop(m);
    tok::verify(0, "end");
}

include!("../gen_chunks.rs");

/// Every kind of element that generic code can tell apart.
fn kind<Z: Slot, N, I>(ctx: &mut Ctx)
where
    N: ArrayLen<kinds::F<Z>> + Rem<I>,
    I: ArrayLen<kinds::F<Z>>,
    Mod<N, I>: Same<U0>,
{
    kinds::reset();
    if ctx.flip() {
        run::<kinds::F<Z>, N, I>(ctx, seq::Opts { depth: 1, after: 1, offset: N::to_usize() / I::to_usize() <= 3, sparse: true });
    } else {
        kept::<kinds::F<Z>, N, I>(ctx);
    }
    kinds::verify("end");
}
fn kind_reshape<Z: Slot, R, C>(ctx: &mut Ctx)
where
    R: ArrayLen<Vector<kinds::F<Z>, C>> + Mul<C>,
    C: ArrayLen<kinds::F<Z>>,
    Prod<R, C>: ArrayLen<kinds::F<Z>> + Rem<C>,
    Mod<Prod<R, C>, C>: Same<U0>,
{
    kinds::reset();
    reshape::<kinds::F<Z>, R, C>(ctx);
    kinds::verify("end");
}
macro_rules! push_kind_few {
    ($S:ident, $v:ident) => {
        push_kind_few!(@ $S $v kind U0 U2, U2 U1, U4 U4, U6 U2, U6 U3, U9 U3, U16 U8, U32 U16);
        push_kind_few!(@ $S $v kind_reshape U0 U2, U1 U1, U2 U3, U3 U2, U4 U4, U1 U5, U8 U2, U2 U16, U32 U1);
    };
    (@ $S:ident $v:ident $f:ident $($R:ident $C:ident),*) => {
        $( $v.push((concat!(stringify!($S), ": ", stringify!($f), " ", stringify!($R), " ", stringify!($C)), $f::<$S, $R, $C> as fn(&mut Ctx))); )*
    };
}

fn main() {
    let ck = Check::new("C05");
    if cfg!(miri) {
        let mut t: Table = vec![];
        push_shape_of!(U6, U2, t, tiny, Tok);
        push_shape_of!(U4, U4, t, tiny, Tok);
        push_shape_of!(U0, U2, t, tiny, Tok);
        push_shape_of!(U4, U2, t, tiny, ZTok);
        explore_table(&ck, "histories", &t);
        let mut t: Table = vec![];
        push_shape_of!(U6, U2, t, kept, Tok);
        push_shape_of!(U3, U1, t, kept, Wide);
        explore_table(&ck, "kept", &t);
        let mut t: Table = vec![];
        push_shape_of!(U2, U3, t, reshape, Tok);
        push_shape_of!(U0, U3, t, reshape, Tok);
        explore_table(&ck, "reshape", &t);
        return ck.finish();
    }
    let mut t: Table = vec![];
    for_small_chunks!(push_shape_of, t, hist, Tok);
    push_shape_of!(U6, U2, t, hist, ZTok);
    push_shape_of!(U4, U2, t, hist, Wide);
    ck.bound("histories", "lengths 0..=8 with every divisor, up to 3 calls plus a finishing call");
    explore_table(&ck, "histories", &t);
    let mut t: Table = vec![];
    for_large_chunks!(push_shape_of, t, every, Tok);
    ck.bound("every state", "lengths 9, 10, 12, 16, 25, 30, 31, 32 with every divisor, every (front, back), every next call");
    explore_table(&ck, "every state", &t);
    let mut t: Table = vec![];
    for_small_chunks!(push_shape_of, t, kept, Tok);
    for_large_chunks!(push_shape_of, t, kept, Tok);
    for_small_chunks!(push_shape_of, t, kept, ZTok);
    explore_table(&ck, "kept", &t);
    let mut t: Table = vec![];
    for_reshapes!(push_shape_of, t, reshape, Tok);
    ck.bound("reshape", "every shape with at most 32 entries and at least one column");
    explore_table(&ck, "reshape", &t);
    if ck.thorough {
        let mut t: Table = vec![];
        for_small_chunks!(push_shape_of, t, deep, Tok);
        ck.bound("deep histories", "lengths 0..=8 with every divisor, up to 5 calls");
        explore_table(&ck, "deep histories", &t);
        let mut t: Table = vec![];
        for_large_chunks!(push_shape_of, t, every2, Tok);
        explore_table(&ck, "two steps from every state", &t);
        #[cfg(feature = "wide")]
        {
            let mut t: Table = vec![];
            for_other_chunks!(push_shape_of, t, every2, Tok);
            for_other_chunks!(push_shape_of, t, kept, Tok);
            explore_table(&ck, "two steps from every state, other lengths", &t);
        }
        let mut t: Table = vec![];
        for_reshapes!(push_shape_of, t, reshape, Wide);
        explore_table(&ck, "reshape over-aligned", &t);
    }
    let mut t: Table = vec![];
    for_kinds!(push_kind_few, t);
    ck.bound("kinds", format!("{}: 8 pairs of lengths (every state and next call; every way to keep chunks) and 9 shapes", kinds::KINDS));
    explore_table(&ck, "kinds", &t);
    ck.finish();
}
