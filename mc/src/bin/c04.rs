//! C04: the five row/column iterators against a double-ended queue of the matrix's rows, columns, entries.
use mc::kinds::{self, *};
use mc::shapes::*;
use mc::tok::{self, Elem, Tok, ZTok};
use mc::*;
use rowcol::matrix::iter::*;
use rowcol::prelude::{Matrix, Vector};
use rowcol::vector::ArrayLen;
use rowcol_mc as mc;

fn val<T: Elem>(i: usize, j: usize) -> i64 {
    (100 * i as i64 + j as i64 + 1) % T::VALUES
}
fn addr<T>(x: &T) -> i64 {
    x as *const T as usize as i64
}

fn run<T: Elem, R, C>(ctx: &mut Ctx, o: seq::Opts)
where
    C: ArrayLen<T> + ArrayLen<Vector<T, R>>,
    R: ArrayLen<T> + ArrayLen<Vector<T, C>>,
{
    tok::reset();
    let (r, c) = (R::to_usize(), C::to_usize());
    // the matrix sits inside a larger allocation, next to decoys
    let m: Box<[Matrix<T, R, C>; 3]> =
        Box::new([(); 3].map(|_| Matrix::generate(|(i, j)| T::make(val::<T>(i, j)))));
    let m = &m[1];
    let held = if T::COUNTED { 3 * (r * c) as i64 } else { 0 };
    let owned = |_: usize, when: &str| tok::verify(held, when);
    let vals = |v: Vec<(usize, usize)>| v.into_iter().map(|(i, j)| val::<T>(i, j)).collect::<Vec<_>>();
    let rows: Vec<Vec<(usize, usize)>> = (0..r).map(|i| (0..c).map(|j| (i, j)).collect()).collect();
    let cols: Vec<Vec<(usize, usize)>> = (0..c).map(|j| (0..r).map(|i| (i, j)).collect()).collect();
    match ctx.choose(5) {
        0 => {
            log!(ctx, "rows_iter");
            let model = rows.into_iter().map(vals).collect();
            let it = seq::seq(m.rows_iter(), |x: Vector<T, C>| x.iter().map(Elem::val).collect());
            seq::drive(ctx, it, model, o, &owned)
        }
        1 => {
            log!(ctx, "cols_iter");
            let model = cols.into_iter().map(vals).collect();
            let it = seq::seq(m.cols_iter(), |x: Vector<T, R>| x.iter().map(Elem::val).collect());
            seq::drive(ctx, it, model, o, &owned)
        }
        2 => {
            log!(ctx, "rows_iter_ref");
            // a row is the slice of the matrix's own elements
            let model = rows
                .into_iter()
                .map(|v| {
                    let mut x = vec![c as i64];
                    x.extend(v.iter().map(|&p| addr(&m[p])));
                    x.extend(vals(v));
                    x
                })
                .collect();
            let it = seq::seq(m.rows_iter_ref(), |x: &[T]| {
                let mut v = vec![x.len() as i64];
                v.extend(x.iter().take(40).map(|e| addr(e)));
                v.extend(x.iter().take(40).map(Elem::val));
                v
            });
            seq::drive(ctx, it, model, o, &owned)
        }
        3 => {
            log!(ctx, "cols_iter_ref");
            let model = cols
                .into_iter()
                .map(|v| {
                    let mut x = vec![r as i64];
                    x.extend(v.iter().map(|&p| addr(&m[p])));
                    x.extend(vals(v));
                    x
                })
                .collect();
            let it = seq::seq(m.cols_iter_ref(), |x: ColsIterRefInner<T, R, C>| {
                let n = x.len();
                let x: Vec<&T> = x.take(40).collect();
                let mut v = vec![n as i64];
                v.extend(x.iter().map(|e| addr(*e)));
                v.extend(x.iter().map(|e| e.val()));
                v
            });
            seq::drive(ctx, it, model, o, &owned)
        }
        _ => {
            if c == 0 {
                return;
            }
            let k = if o.sparse { [0, c / 2, c - 1][ctx.choose(3)] } else { ctx.choose(c) };
            log!(ctx, "column {} of cols_iter_ref", k);
            let model = (0..r).map(|i| vec![addr(&m[(i, k)]), val::<T>(i, k)]).collect();
            let it = match ctx.choose(2) {
                0 => m.cols_iter_ref().nth(k).expect("nth of an existing column"),
                _ => m.cols_iter_ref().rev().nth(c - 1 - k).expect("nth of an existing column"),
            };
            seq::drive(ctx, seq::seq(it, |x: &T| vec![addr(x), x.val()]), model, o, &owned)
        }
    }
}

/// The public constructors, over a vector of vectors.
fn constructors<R, C>(ctx: &mut Ctx)
where
    C: ArrayLen<i32> + ArrayLen<Vector<i32, R>>,
    R: ArrayLen<i32> + ArrayLen<Vector<i32, C>>,
{
    let (r, c) = (R::to_usize(), C::to_usize());
    let vv = Vector::<Vector<i32, C>, R>::generate(|i| Vector::generate(|j| val::<i32>(i, j) as i32));
    let at = |i: usize, j: usize| val::<i32>(i, j) as i32;
    let rows: Vec<Vec<i32>> = (0..r).map(|i| (0..c).map(|j| at(i, j)).collect()).collect();
    let cols: Vec<Vec<i32>> = (0..c).map(|j| (0..r).map(|i| at(i, j)).collect()).collect();
    match ctx.choose(2) {
        0 => {
            ensure_eq!(RowsIter::new(&vv).take(40).map(|x| x.iter().cloned().collect()).collect::<Vec<Vec<i32>>>(), rows, "RowsIter::new");
            ensure_eq!(ColsIter::new(&vv).take(40).map(|x| x.iter().cloned().collect()).collect::<Vec<Vec<i32>>>(), cols, "ColsIter::new");
            ensure_eq!(RowsIterRef::new(&vv).take(40).map(|x| x.to_vec()).collect::<Vec<Vec<i32>>>(), rows, "RowsIterRef::new");
            ensure_eq!(ColsIterRef::new(&vv).take(40).map(|x| x.cloned().take(40).collect()).collect::<Vec<Vec<i32>>>(), cols, "ColsIterRef::new");
            for _ in 0..5 {
                ctx.step();
            }
        }
        _ => {
            let mut ks: Vec<usize> = (0..c + 3).collect();
            ks.extend([31, 32, 33, usize::MAX / 2, usize::MAX - 1, usize::MAX]);
            ks.extend([c * r, (c * r).saturating_sub(1), c * r + c]);
            let k = *ctx.pick(&ks);
            log!(ctx, "ColsIterRefInner::new(_, {})", k);
            let res = catch(|| ColsIterRefInner::new(&vv, k));
            ctx.step();
            if k < c {
                match res {
                    Ok(it) => ensure_eq!(it.cloned().take(40).collect::<Vec<_>>(), cols[k], "ColsIterRefInner::new"),
                    Err(e) => mc::fail(format!("ColsIterRefInner::new(_, {}) of {} columns panicked: {:?}", k, c, e)),
                }
            } else {
                ensure!(res.is_err(), "ColsIterRefInner::new accepted column {} of {}", k, c);
            }
        }
    }
}

fn quick<T: Elem, R, C>(ctx: &mut Ctx)
where
    C: ArrayLen<T> + ArrayLen<Vector<T, R>>,
    R: ArrayLen<T> + ArrayLen<Vector<T, C>>,
{
    run::<T, R, C>(ctx, seq::Opts { depth: 3, after: 1, offset: false, sparse: false })
}
fn tiny<T: Elem, R, C>(ctx: &mut Ctx)
where
    C: ArrayLen<T> + ArrayLen<Vector<T, R>>,
    R: ArrayLen<T> + ArrayLen<Vector<T, C>>,
{
    run::<T, R, C>(ctx, seq::Opts { depth: 1, after: 1, offset: false, sparse: true })
}
fn deep<T: Elem, R, C>(ctx: &mut Ctx)
where
    C: ArrayLen<T> + ArrayLen<Vector<T, R>>,
    R: ArrayLen<T> + ArrayLen<Vector<T, C>>,
{
    run::<T, R, C>(ctx, seq::Opts { depth: 5, after: 2, offset: false, sparse: false })
}
fn every<T: Elem, R, C>(ctx: &mut Ctx)
where
    C: ArrayLen<T> + ArrayLen<Vector<T, R>>,
    R: ArrayLen<T> + ArrayLen<Vector<T, C>>,
{
    run::<T, R, C>(ctx, seq::Opts { depth: 1, after: 1, offset: true, sparse: true })
}

macro_rules! larger {
    ($m:ident $(, $a:tt)*) => {
        $m!(U5, U5 $(, $a)*); $m!(U9, U9 $(, $a)*); $m!(U5, U8 $(, $a)*); $m!(U8, U5 $(, $a)*);
        $m!(U16, U2 $(, $a)*); $m!(U2, U16 $(, $a)*); $m!(U17, U3 $(, $a)*); $m!(U3, U17 $(, $a)*);
        $m!(U32, U1 $(, $a)*); $m!(U1, U32 $(, $a)*); $m!(U31, U2 $(, $a)*); $m!(U2, U31 $(, $a)*);
        $m!(U0, U32 $(, $a)*); $m!(U32, U0 $(, $a)*); $m!(U6, U7 $(, $a)*); $m!(U10, U12 $(, $a)*);
    };
}

/// Every kind of element that generic code can tell apart.
fn kind<Z: Slot, R, C>(ctx: &mut Ctx)
where
    C: ArrayLen<kinds::F<Z>> + ArrayLen<Vector<kinds::F<Z>, R>>,
    R: ArrayLen<kinds::F<Z>> + ArrayLen<Vector<kinds::F<Z>, C>>,
{
    kinds::reset();
    run::<kinds::F<Z>, R, C>(ctx, seq::Opts { depth: 1, after: 1, offset: R::to_usize().max(C::to_usize()) <= 3, sparse: true });
    kinds::verify("end");
}
macro_rules! push_kind_few {
    ($S:ident, $v:ident, $f:ident) => {
        push_kind_few!(@ $S $v $f U1 U1, U2 U3, U3 U2, U4 U4, U1 U5, U5 U1, U2 U8, U9 U2, U17 U1);
    };
    (@ $S:ident $v:ident $f:ident $($R:ident $C:ident),*) => {
        $( $v.push((concat!(stringify!($S), ": ", stringify!($R), "x", stringify!($C)), $f::<$S, $R, $C> as fn(&mut Ctx))); )*
    };
}

fn main() {
    let ck = Check::new("C04");
    if cfg!(miri) {
        let mut t: Table = vec![];
        push_shape_of!(U2, U1, t, tiny, Tok);
        push_shape_of!(U1, U2, t, tiny, Tok);
        if ck.thorough {
            push_shape_of!(U2, U3, t, tiny, Tok);
            push_shape_of!(U3, U1, t, tiny, Tok);
            push_shape_of!(U0, U2, t, tiny, Tok);
            push_shape_of!(U2, U0, t, tiny, Tok);
            push_shape_of!(U2, U2, t, tiny, ZTok);
        }
        explore_table(&ck, "histories", &t);
        let mut t: Table = vec![];
        push_shape!(U2, U3, t, constructors);
        push_shape!(U0, U2, t, constructors);
        explore_table(&ck, "constructors", &t);
        return ck.finish();
    }
    let mut t: Table = vec![];
    for_small_shapes!(push_shape_of, t, quick, Tok);
    push_shape_of!(U3, U2, t, quick, ZTok);
    push_shape_of!(U2, U4, t, quick, u8);
    ck.bound("histories", "shapes up to 4x4, up to 3 calls plus a finishing call");
    explore_table(&ck, "histories", &t);
    let mut t: Table = vec![];
    larger!(push_shape_of, t, every, Tok);
    ck.bound("every state", "16 shapes up to 32, every (front, back), every next call");
    explore_table(&ck, "every state", &t);
    let mut t: Table = vec![];
    for_small_shapes!(push_shape, t, constructors);
    larger!(push_shape, t, constructors);
    explore_table(&ck, "constructors", &t);
    if ck.thorough {
        let mut t: Table = vec![];
        for_small_shapes!(push_shape_of, t, deep, Tok);
        ck.bound("deep histories", "shapes up to 4x4, up to 5 calls");
        explore_table(&ck, "deep histories", &t);
        #[cfg(feature = "wide")]
        {
            let mut t: Table = vec![];
            for_mid_shapes!(push_shape_of, t, every, Tok);
            for_large_shapes!(push_shape_of, t, every, u8);
            explore_table(&ck, "every state, more shapes", &t);
        }
    }
    let mut t: Table = vec![];
    for_kinds!(push_kind_few, t, kind);
    ck.bound("kinds", format!("{}, 9 shapes up to 17x1: every (front, back) up to 3x3, every next call", kinds::KINDS));
    explore_table(&ck, "kinds", &t);
    ck.finish();
}
