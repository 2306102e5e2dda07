//! C07: all access paths reach the same element; out-of-range is rejected.
use mc::kinds::{self, *};
use mc::shapes::*;
use mc::tok::{Boxed, Elem, Wide};
use mc::*;
use rowcol::prelude::{Matrix, Vector};
use rowcol::typenum::Unsigned;
use rowcol::vector::ArrayLen;
use rowcol_mc as mc;
use std::marker::PhantomData;
use std::ops::{Index, IndexMut};

fn addr<T>(x: &T) -> usize {
    x as *const T as usize
}

/// Indexing by `I`, if `V` implements it; otherwise the methods of `Absent` are selected.
struct Probe<V, I>(PhantomData<(V, I)>);
struct ProbeMut<V, I>(PhantomData<(V, I)>);
trait Absent<V> {
    fn get(_: &V) -> Option<*const u32> {
        None
    }
    fn get_mut(_: &mut V) -> Option<*mut u32> {
        None
    }
}
impl<V, I> Absent<V> for Probe<V, I> {}
impl<V, I> Absent<V> for ProbeMut<V, I> {}
trait Mk {
    fn mk() -> Self;
}
impl Mk for U0 {
    fn mk() -> Self {
        U0::new()
    }
}
impl<U: Unsigned, B: rowcol::typenum::Bit> Mk for rowcol::typenum::UInt<U, B> {
    fn mk() -> Self {
        Default::default()
    }
}
impl<A: Mk, B: Mk> Mk for (A, B) {
    fn mk() -> Self {
        (A::mk(), B::mk())
    }
}
impl<V: Index<I, Output = u32>, I: Mk> Probe<V, I> {
    fn get(v: &V) -> Option<*const u32> {
        Some(&v[I::mk()] as *const u32)
    }
}
impl<V: IndexMut<I, Output = u32>, I: Mk> ProbeMut<V, I> {
    fn get_mut(v: &mut V) -> Option<*mut u32> {
        Some(&mut v[I::mk()] as *mut u32)
    }
}

/// What compile-time indexing gave, against what it must give.
fn static_vec(name: &str, n: usize, i: usize, base: *const u32, got: Option<*const u32>, got_mut: Option<*mut u32>) {
    for (g, how) in [(got, "Index"), (got_mut.map(|p| p as *const u32), "IndexMut")] {
        if i < n {
            match g {
                None => mc::fail(format!("{}: {}<U{}> is not accepted on length {}", name, how, i, n)),
                Some(p) => ensure!(p as usize == base as usize + 4 * i, "{}: {}<U{}> of length {} reaches {} bytes from the start", name, how, i, n, (p as usize).wrapping_sub(base as usize)),
            }
        } else {
            ensure!(g.is_none(), "{}: {}<U{}> is accepted on length {}", name, how, i, n);
        }
    }
}
fn static_mat(r: usize, c: usize, i: usize, j: usize, base: usize, got: Option<*const u32>, got_mut: Option<*mut u32>) {
    for (g, how) in [(got, "Index"), (got_mut.map(|p| p as *const u32), "IndexMut")] {
        if i < r && j < c {
            match g {
                None => mc::fail(format!("{}<(U{}, U{})> is not accepted on {}x{}", how, i, j, r, c)),
                Some(p) => ensure!(p as usize == base + 4 * (i * c + j), "{}<(U{}, U{})> of {}x{} reaches offset {}", how, i, j, r, c, (p as usize).wrapping_sub(base)),
            }
        } else {
            ensure!(g.is_none(), "{}<(U{}, U{})> is accepted on {}x{}", how, i, j, r, c);
        }
    }
}

macro_rules! sv {
    ($v:ident $N:ident $n:expr; $($I:ident $i:expr),*) => {
        $v.push((concat!("static indices of ", stringify!($N)), (|ctx: &mut Ctx| {
            let mut x = Vector::<u32, $N>::generate(|i| i as u32 + 1);
            $(
                // does it compile (and where does it point to)?  Index values are only used when in range.
                let base = x.as_slice().as_ptr();
                let g: Option<*const u32> = Probe::<Vector<u32, $N>, $I>::get(&x);
                let h: Option<*mut u32> = ProbeMut::<Vector<u32, $N>, $I>::get_mut(&mut x);
                static_vec("vector", $n, $i, base, g, h);
                ctx.step();
            )*
        }) as fn(&mut Ctx)));
    };
}
macro_rules! sm {
    ($v:ident $R:ident $C:ident $r:expr, $c:expr; $(($I:ident, $J:ident, $i:expr, $j:expr)),*) => {
        $v.push((concat!("static indices of ", stringify!($R), "x", stringify!($C)), (|ctx: &mut Ctx| {
            let mut x = Matrix::<u32, $R, $C>::generate(|(i, j)| (i * 100 + j) as u32 + 1);
            $(
                let base = addr(&x);
                let g: Option<*const u32> = Probe::<Matrix<u32, $R, $C>, ($I, $J)>::get(&x);
                let h: Option<*mut u32> = ProbeMut::<Matrix<u32, $R, $C>, ($I, $J)>::get_mut(&mut x);
                static_mat($r, $c, $i, $j, base, g, h);
                ctx.step();
            )*
        }) as fn(&mut Ctx)));
    };
}
include!("../gen_static.rs");

const VR: usize = 10;
/// All ways to read position i; the address if the way gives a reference.
fn read<T: Elem, N: ArrayLen<T>>(v: &Vector<T, N>, how: usize, i: usize) -> (i64, Option<usize>) {
    let r: &T = match how {
        0 => &v[i],
        1 => &v.as_slice()[i],
        2 => &AsRef::<[T]>::as_ref(v)[i],
        3 => &(**v).as_ref()[i],
        4 => v.iter().nth(i).expect("iter().nth"),
        5 => v.iter().rev().nth(v.len() - 1 - i).expect("iter().rev().nth"),
        6 => unsafe { v.get_unchecked(i) },
        7 => return (v.clone().into_inner().as_ref()[i].val(), None),
        8 => return (v.clone().into_iter().nth(i).expect("into_iter().nth").val(), None),
        _ => Index::<usize>::index(v, i),
    };
    (r.val(), Some(addr(r)))
}
const VW: usize = 9;
fn write<T: Elem, N: ArrayLen<T>>(v: &mut Vector<T, N>, how: usize, i: usize, x: T) {
    let n = v.len();
    match how {
        0 => v[i] = x,
        1 => v.as_slice_mut()[i] = x,
        2 => AsMut::<[T]>::as_mut(v)[i] = x,
        3 => (**v).as_mut()[i] = x,
        4 => *v.iter_mut().nth(i).expect("iter_mut().nth") = x,
        5 => *v.iter_mut().rev().nth(n - 1 - i).expect("iter_mut().rev().nth") = x,
        6 => unsafe { *v.get_unchecked_mut(i) = x },
        7 => {
            std::mem::replace(IndexMut::<usize>::index_mut(v, i), x);
        }
        _ => {
            // through an owned array
            let mut a = v.clone().into_inner();
            a.as_mut()[i] = x;
            *v = Vector::new(a);
        }
    }
}
const MR: usize = 7;
fn mread<T: Elem, R, C>(m: &Matrix<T, R, C>, how: usize, p: (usize, usize)) -> (i64, Option<usize>)
where
    R: ArrayLen<Vector<T, C>> + ArrayLen<T>,
    C: ArrayLen<T> + ArrayLen<Vector<T, R>>,
{
    let (i, j) = p;
    let r: &T = match how {
        0 => &m[p],
        1 => unsafe { m.get_unchecked(p) },
        2 => &m.rows_iter_ref().nth(i).expect("row")[j],
        3 => m.cols_iter_ref().nth(j).expect("column").nth(i).expect("entry"),
        4 => return (m.rows_iter().nth(i).expect("row")[j].val(), None),
        5 => return (m.cols_iter().nth(j).expect("column")[i].val(), None),
        _ => return (m.transposed()[(j, i)].val(), None),
    };
    (r.val(), Some(addr(r)))
}
const MW: usize = 3;
fn mwrite<T: Elem, R, C>(m: &mut Matrix<T, R, C>, how: usize, p: (usize, usize), x: T)
where
    R: ArrayLen<Vector<T, C>>,
    C: ArrayLen<T>,
{
    match how {
        0 => m[p] = x,
        1 => unsafe { *m.get_unchecked_mut(p) = x },
        _ => *IndexMut::index_mut(m, p) = x,
    }
}

fn values<T: Elem>(k: usize) -> i64 {
    (k as i64 + 1) % T::VALUES
}

/// Write histories: after every write through any path, every path reads what the model holds.
fn vec_hist<T: Elem, N: ArrayLen<T>>(ctx: &mut Ctx, depth: usize) {
    let n = N::to_usize();
    let mut model: Vec<i64> = (0..n).map(values::<T>).collect();
    let mut v = Vector::<T, N>::generate(|i| T::make(values::<T>(i)));
    ensure_eq!((v.len(), v.is_empty()), (n, n == 0), "len and is_empty");
    let check = |v: &Vector<T, N>, model: &[i64], when: &str| {
        let base = v.as_slice().as_ptr() as usize;
        ensure_eq!(base, addr(v), "{}: elements start at the vector", when);
        for i in 0..n {
            for how in 0..VR {
                let (x, a) = read(v, how, i);
                ensure_eq!(x, model[i], "{}: element {} of {} by path {}", when, i, n, how);
                if let Some(a) = a {
                    ensure_eq!(a, base + i * std::mem::size_of::<T>(), "{}: address of element {} by path {}", when, i, how);
                }
            }
        }
        ensure_eq!((v.as_slice().len(), v.iter().len(), AsRef::<[T]>::as_ref(v).len(), (**v).as_ref().len()), (n, n, n, n), "lengths");
    };
    check(&v, &model, "initially");
    if n == 0 {
        return;
    }
    for k in 0..depth {
        let i = ctx.choose(n);
        let how = ctx.choose(VW);
        let x = values::<T>(100 + k);
        log!(ctx, "element {} := {} by path {}", i, x, how);
        write(&mut v, how, i, T::make(x));
        model[i] = x;
        ctx.state((n, &model));
        check(&v, &model, &format!("after writing element {} by path {}", i, how));
    }
}
fn mat_hist<T: Elem, R, C>(ctx: &mut Ctx, depth: usize)
where
    R: ArrayLen<Vector<T, C>> + ArrayLen<T>,
    C: ArrayLen<T> + ArrayLen<Vector<T, R>>,
{
    let (r, c) = (R::to_usize(), C::to_usize());
    let mut model: Vec<i64> = (0..r * c).map(values::<T>).collect();
    let mut m = Matrix::<T, R, C>::generate(|(i, j)| T::make(values::<T>(i * c + j)));
    ensure_eq!((m.dim(), m.rows(), m.cols()), ((r, c), r, c), "dim, rows, cols");
    let check = |m: &Matrix<T, R, C>, model: &[i64], when: &str| {
        for k in 0..r * c {
            let p = (k / c, k % c);
            for how in 0..MR {
                let (x, a) = mread(m, how, p);
                ensure_eq!(x, model[k], "{}: entry {:?} of {}x{} by path {}", when, p, r, c, how);
                if let Some(a) = a {
                    ensure_eq!(a, addr(m) + k * std::mem::size_of::<T>(), "{}: address of entry {:?} by path {}", when, p, how);
                }
            }
        }
    };
    check(&m, &model, "initially");
    if r * c == 0 {
        return;
    }
    for k in 0..depth {
        let i = ctx.choose(r * c);
        let how = ctx.choose(MW);
        let x = values::<T>(10_000 + k);
        log!(ctx, "entry ({}, {}) := {} by path {}", i / c, i % c, x, how);
        mwrite(&mut m, how, (i / c, i % c), T::make(x));
        model[i] = x;
        ctx.state((r, c, &model));
        check(&m, &model, &format!("after writing entry ({}, {}) by path {}", i / c, i % c, how));
    }
}

fn outside(n: usize) -> Vec<usize> {
    let mut k: Vec<usize> = (n..n + 3).collect();
    k.extend([n * 2, 31, 32, 33, 64, 255, 256, 1 << 16, 1 << 32, (1 << 32) + 1, 1 << 61, 1 << 62, 1 << 63, (1 << 63) + 1, usize::MAX - 1, usize::MAX]);
    k.retain(|&x| x >= n);
    k.sort();
    k.dedup();
    k
}
fn vec_range<N: ArrayLen<u32>>(ctx: &mut Ctx) {
    let n = N::to_usize();
    let ks = outside(n);
    let k = *ctx.pick(&ks);
    let mut v = Vector::<u32, N>::generate(|i| i as u32 + 1);
    let w = ctx.choose(3);
    log!(ctx, "index {} of {}, way {}", k, n, w);
    let r = match w {
        0 => catch(|| v[k]),
        1 => catch(|| {
            v[k] = 77;
            0
        }),
        _ => catch(|| (*v).as_ref()[k]),
    };
    ctx.step();
    ensure!(r.is_err(), "index {} of a vector of {} did not panic", k, n);
    ensure!((0..n).all(|i| v.as_slice()[i] == i as u32 + 1), "a rejected access changed the vector");
}
fn mat_range<R, C>(ctx: &mut Ctx)
where
    R: ArrayLen<Vector<u32, C>>,
    C: ArrayLen<u32>,
{
    let (r, c) = (R::to_usize(), C::to_usize());
    // at least one coordinate outside
    let mut is: Vec<usize> = (0..r).collect();
    is.extend(outside(r));
    let mut js: Vec<usize> = (0..c).collect();
    js.extend(outside(c));
    if c > 0 {
        // offsets that would land inside the matrix again
        js.extend([c + 1, 2 * c, (r * c).saturating_sub(1), (usize::MAX - c).wrapping_add(1)]);
        is.extend([usize::MAX / c, (usize::MAX / c).saturating_add(1)]);
    }
    let i = *ctx.pick(&is);
    let j = *ctx.pick(&js);
    if i < r && j < c {
        return;
    }
    let mut m = Matrix::<u32, R, C>::generate(|(i, j)| (i * c + j) as u32);
    let x = if ctx.flip() {
        catch(|| m[(i, j)])
    } else {
        catch(|| {
            m[(i, j)] = 77;
            0
        })
    };
    ctx.step();
    ensure!(x.is_err(), "index {:?} of a {}x{} matrix did not panic", (i, j), r, c);
    ensure!(m.rows_iter_ref().flat_map(|x| x.iter()).enumerate().all(|(k, &x)| k as u32 == x), "a rejected access changed the matrix");
}

fn v1<T: Elem, N: ArrayLen<T>>(ctx: &mut Ctx) {
    vec_hist::<T, N>(ctx, 1)
}
fn v2<T: Elem, N: ArrayLen<T>>(ctx: &mut Ctx) {
    vec_hist::<T, N>(ctx, 2)
}
fn v3<T: Elem, N: ArrayLen<T>>(ctx: &mut Ctx) {
    vec_hist::<T, N>(ctx, 3)
}
fn m1<T: Elem, R, C>(ctx: &mut Ctx)
where
    R: ArrayLen<Vector<T, C>> + ArrayLen<T>,
    C: ArrayLen<T> + ArrayLen<Vector<T, R>>,
{
    mat_hist::<T, R, C>(ctx, 1)
}
fn m2<T: Elem, R, C>(ctx: &mut Ctx)
where
    R: ArrayLen<Vector<T, C>> + ArrayLen<T>,
    C: ArrayLen<T> + ArrayLen<Vector<T, R>>,
{
    mat_hist::<T, R, C>(ctx, 2)
}
fn m3<T: Elem, R, C>(ctx: &mut Ctx)
where
    R: ArrayLen<Vector<T, C>> + ArrayLen<T>,
    C: ArrayLen<T> + ArrayLen<Vector<T, R>>,
{
    mat_hist::<T, R, C>(ctx, 3)
}

/// Every kind of element that generic code can tell apart.
fn kind_length<Z: Slot, N: ArrayLen<kinds::F<Z>>>(ctx: &mut Ctx) {
    kinds::reset();
    vec_hist::<kinds::F<Z>, N>(ctx, 1);
    kinds::settle("end");
}
fn kind_shape<Z: Slot, R, C>(ctx: &mut Ctx)
where
    R: ArrayLen<Vector<kinds::F<Z>, C>> + ArrayLen<kinds::F<Z>>,
    C: ArrayLen<kinds::F<Z>> + ArrayLen<Vector<kinds::F<Z>, R>>,
{
    kinds::reset();
    mat_hist::<kinds::F<Z>, R, C>(ctx, 1);
    kinds::settle("end");
}
macro_rules! push_kind_few {
    ($S:ident, $v:ident, $f:ident) => {
        push_kind_few!(@ $S $v $f U1 U1, U2 U3, U3 U2, U4 U4, U1 U5, U5 U1, U2 U8, U9 U2);
    };
    (@ $S:ident $v:ident $f:ident $($R:ident $C:ident),*) => {
        $( $v.push((concat!(stringify!($S), ": ", stringify!($R), "x", stringify!($C)), $f::<$S, $R, $C> as fn(&mut Ctx))); )*
    };
}

fn main() {
    let ck = Check::new("C07");
    if cfg!(miri) {
        let mut t: Table = vec![];
        push_len_of!(U3, 3, t, v1, u8);
        push_len_of!(U2, 2, t, v1, Wide);
        push_shape_of!(U2, U3, t, m1, u8);
        explore_table(&ck, "write histories", &t);
        let mut t: Table = vec![];
        static_miri(&mut t);
        explore_table(&ck, "static", &t);
        return ck.finish();
    }
    let mut t: Table = vec![];
    static_table(&mut t);
    ck.bound("static", "every index U0..=U36, U63, U64, U255, U256 on every vector length; every pair up to (U5, U5) on shapes up to 4x4, and border pairs on larger shapes");
    explore_table(&ck, "static", &t);
    let mut t: Table = vec![];
    for_tiny_lens!(push_len_of, t, v2, i32);
    for_tiny_lens!(push_len_of, t, v2, u8);
    for_tiny_lens!(push_len_of, t, v2, Wide);
    for_tiny_lens!(push_len_of, t, v2, Boxed);
    for_lens!(push_len_of, t, v1, i32);
    for_small_shapes!(push_shape_of, t, m2, i32);
    for_small_shapes!(push_shape_of, t, m1, Wide);
    for_large_shapes_few!(push_shape_of, t, m1, i32);
    ck.bound("write histories", "2 writes (vectors up to 4, matrices up to 4x4), 1 write for every length and larger shapes; all read paths after each");
    explore_table(&ck, "write histories", &t);
    let mut t: Table = vec![];
    for_lens!(push_len, t, vec_range);
    for_small_shapes!(push_shape, t, mat_range);
    for_large_shapes_few!(push_shape, t, mat_range);
    explore_table(&ck, "out of range", &t);
    if ck.thorough {
        let mut t: Table = vec![];
        for_tiny_lens!(push_len_of, t, v3, i32);
        for_lens!(push_len_of, t, v2, i32);
        for_small_shapes!(push_shape_of, t, m3, i32);
        for_large_shapes_few!(push_shape_of, t, m2, i32);
        explore_table(&ck, "longer write histories", &t);
        #[cfg(feature = "wide")]
        {
            let mut t: Table = vec![];
            for_mid_shapes!(push_shape_of, t, m2, i32);
            for_large_shapes!(push_shape_of, t, m1, i32);
            for_mid_shapes!(push_shape, t, mat_range);
            explore_table(&ck, "more shapes", &t);
        }
    }
    let mut t: Table = vec![];
    for_kinds!(push_kind_lens, t, kind_length);
    for_kinds!(push_kind_few, t, kind_shape);
    ck.bound("kinds", format!("{}, {} and 8 shapes: one write by every path, then every read path", kinds::KINDS, kinds::LENS));
    explore_table(&ck, "kinds", &t);
    ck.finish();
}
