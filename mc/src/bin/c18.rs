//! C18: memory layout, array round trips, Copy, aliases, dimensions, and absence of allocations.
use mc::shapes::*;
use mc::tok::{self, Tok, Wide};
use mc::*;
use num::{Bounded, One, Zero};
use rowcol::prelude::*;
use rowcol::typenum::Unsigned;
use rowcol::vector::ArrayLen;
use rowcol_mc as mc;
use std::alloc::{GlobalAlloc, Layout, System};
use std::any::TypeId;
use std::cell::Cell;
use std::marker::PhantomData;
use std::mem::{align_of, size_of};

thread_local! {
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
}
struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = ALLOCS.try_with(|a| a.set(a.get() + 1));
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let _ = ALLOCS.try_with(|a| a.set(a.get() + 1));
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Counting = Counting;

/// The number of allocations during `f`.
fn allocs<T>(f: impl FnOnce() -> T) -> u64 {
    let before = ALLOCS.with(|a| a.get());
    let v = f();
    drop(std::hint::black_box(v));
    ALLOCS.with(|a| a.get()) - before
}

/// Element types of the layout checks.
trait Cell_: 'static {
    const NAME: &'static str;
    fn make(i: usize) -> Self;
    fn val(&self) -> usize;
}
macro_rules! cell {
    ($($T:ty, $name:expr, |$i:ident| $mk:expr, |$s:ident| $val:expr;)*) => { $(
        impl Cell_ for $T {
            const NAME: &'static str = $name;
            fn make($i: usize) -> Self { $mk }
            fn val(&self) -> usize { let $s = self; $val }
        }
    )* };
}
type Odd = [u8; 3];
type Mixed = (u8, u32, u16);
cell! {
    (), "()", |_i| (), |_s| 0;
    u8, "u8", |i| i as u8, |s| *s as usize;
    u16, "u16", |i| i as u16, |s| *s as usize;
    u64, "u64", |i| i as u64, |s| *s as usize;
    f32, "f32", |i| i as f32, |s| *s as usize;
    f64, "f64", |i| i as f64, |s| *s as usize;
    u128, "u128", |i| i as u128, |s| *s as usize;
    Odd, "[u8; 3]", |i| [i as u8, (i >> 8) as u8, 7], |s| s[0] as usize + ((s[1] as usize) << 8);
    Mixed, "(u8, u32, u16)", |i| (1, i as u32, 2), |s| s.1 as usize;
    Wide, "align(64)", |i| Wide(i as u8, i as i64), |s| s.1 as usize;
    Tok, "tracked", |i| Tok::new(i as i64), |s| s.v() as usize;
    Option<Box<u32>>, "Option<Box>", |i| Some(Box::new(i as u32)), |s| s.as_ref().map_or(usize::MAX, |b| **b as usize);
}
fn same<T: Cell_>(got: &T, i: usize) -> bool {
    got.val() == T::make(i).val()
}

fn vector<T: Cell_, N: Unsigned + ArrayLen<T>, Arr: AsRef<[T]> + 'static>(ctx: &mut Ctx, n: usize, mk: impl Fn() -> Arr)
where
    Vector<T, N>: Arrayed<Arr, T>,
{
    tok::reset();
    {
        let name = T::NAME;
        ensure_eq!(<N as Unsigned>::to_usize(), n, "the type-level length");
        ensure_eq!(size_of::<Vector<T, N>>(), n * size_of::<T>(), "size of a vector of {} {}", n, name);
        ensure_eq!(size_of::<Vector<T, N>>(), size_of::<Arr>(), "size of a vector of {} {}", n, name);
        ensure_eq!(align_of::<Vector<T, N>>(), align_of::<T>(), "alignment of a vector of {} {}", n, name);
        ctx.step();
        let v = <Vector<T, N> as Arrayed<Arr, T>>::from_array(mk());
        ensure_eq!(v.len(), n, "len of a vector of {} {}", n, name);
        ensure_eq!(v.is_empty(), n == 0, "is_empty of a vector of {} {}", n, name);
        ensure_eq!(v.as_slice().len(), n, "length of the slice of {} {}", n, name);
        ensure!(v.as_slice().as_ptr() as usize == &v as *const _ as usize, "the elements of {} {} are not stored inline", n, name);
        for i in 0..n {
            ensure!(&v[i] as *const T as usize == &v as *const _ as usize + i * size_of::<T>(), "element {} of {} {} is at byte {}", i, n, name, &v[i] as *const T as usize - &v as *const _ as usize);
            ensure!(same(&v[i], i), "element {} of a vector of {} {} made from an array", i, n, name);
        }
        ctx.step();
        let a: Arr = <Vector<T, N> as Arrayed<Arr, T>>::to_array(v);
        ensure_eq!(a.as_ref().len(), n, "length of the array of {} {}", n, name);
        for i in 0..n {
            ensure!(same(&a.as_ref()[i], i), "element {} of the array given back by a vector of {} {}", i, n, name);
        }
        ctx.step();
        ctx.outcome((n, name));
        log!(ctx, "{} of {}", n, name);
    }
    tok::verify(0, "after an array round trip");
}
/// `new` and `into_inner` exchange exactly the array type `A`.
trait Arrayed<A, T> {
    fn from_array(a: A) -> Self;
    fn to_array(self) -> A;
}
macro_rules! arrayed {
    ($N:ident, $n:expr) => {
        impl<T> Arrayed<[T; $n], T> for Vector<T, $N> {
            fn from_array(a: [T; $n]) -> Self {
                Vector::<T, $N>::new(a)
            }
            fn to_array(self) -> [T; $n] {
                self.into_inner()
            }
        }
    };
}
for_lens!(arrayed);
macro_rules! vec_cases {
    ($N:ident, $n:expr, $t:ident) => {
        vec_cases!(@ $N, $n, $t, (), u8, u16, u64, f32, f64, u128, Odd, Mixed, Wide, Tok, (Option<Box<u32>>));
    };
    (@ $N:ident, $n:expr, $t:ident, $($T:ty),*) => { $(
        $t.push((concat!(stringify!($T), "^", stringify!($N)), (|ctx: &mut Ctx| vector::<$T, $N, [$T; $n]>(ctx, $n, || std::array::from_fn(<$T>::make))) as fn(&mut Ctx)));
    )* };
}

fn matrix<T: Cell_, R, C>(ctx: &mut Ctx)
where
    R: Unsigned + ArrayLen<Vector<T, C>>,
    C: Unsigned + ArrayLen<T>,
{
    tok::reset();
    {
        let (r, c, name) = (<R as Unsigned>::to_usize(), <C as Unsigned>::to_usize(), T::NAME);
        ensure_eq!(size_of::<Matrix<T, R, C>>(), r * c * size_of::<T>(), "size of a {}x{} matrix of {}", r, c, name);
        ensure_eq!(align_of::<Matrix<T, R, C>>(), align_of::<T>(), "alignment of a {}x{} matrix of {}", r, c, name);
        let m = Matrix::<T, R, C>::generate(|(i, j)| T::make(i * c + j));
        ensure_eq!(m.dim(), (r, c), "dim of a {}x{} matrix of {}", r, c, name);
        ensure_eq!((m.rows(), m.cols()), (r, c), "(rows, cols) of a {}x{} matrix of {}", r, c, name);
        let base = &m as *const _ as usize;
        for i in 0..r {
            for j in 0..c {
                let e = &m[(i, j)];
                ensure!(e as *const T as usize == base + (i * c + j) * size_of::<T>(), "entry {:?} of a {}x{} matrix of {} is at byte {}", (i, j), r, c, name, (e as *const T as usize).wrapping_sub(base));
                ensure!(same(e, i * c + j), "entry {:?} of a {}x{} matrix of {}", (i, j), r, c, name);
            }
        }
        ctx.step();
        ctx.outcome((r, c, name));
        log!(ctx, "{}x{} of {}", r, c, name);
    }
    tok::verify(0, "after building a matrix");
}

/// Whether `T: Copy`: the inherent constant wins over the trait's if its bound holds.
struct IsCopy<T: ?Sized>(PhantomData<T>);
trait NotCopy {
    const YES: bool = false;
}
impl<T: ?Sized> NotCopy for IsCopy<T> {}
impl<T: Copy> IsCopy<T> {
    const YES: bool = true;
}
struct Plain; // zero-sized, not Copy
#[derive(Clone, Copy)]
struct Unit; // zero-sized, Copy
type Fp = fn(u8) -> u8;
type Bx = Box<u8>;
type Rf = &'static str;
type Mu = &'static mut u8;
macro_rules! copy_case {
    ($N:ident, $n:expr, $t:ident) => {
        copy_case!(@ $N, $t, u8, f64, Fp, Rf, Unit, Bx, String, Plain, Mu, Tok, (Cell<u8>));
    };
    (@ $N:ident, $t:ident, $($T:ty),*) => { $(
        $t.push((concat!(stringify!($T), "^", stringify!($N)), (|ctx: &mut Ctx| {
            let (got, want) = (<IsCopy<Vector<$T, $N>>>::YES, <IsCopy<$T>>::YES);
            ctx.step();
            ensure!(got == want, "Vector<{}, {}> is {}Copy", stringify!($T), stringify!($N), if got { "" } else { "not " });
            ctx.outcome((stringify!($N), stringify!($T), got));
        }) as fn(&mut Ctx)));
    )* };
}
macro_rules! copy_mat {
    ($R:ident, $C:ident, $t:ident) => {
        copy_mat!(@ $R, $C, $t, u8, f64, Unit, Bx, Plain, Mu);
    };
    (@ $R:ident, $C:ident, $t:ident, $($T:ty),*) => { $(
        $t.push((concat!(stringify!($T), "^", stringify!($R), "x", stringify!($C)), (|ctx: &mut Ctx| {
            let (got, want) = (<IsCopy<Matrix<$T, $R, $C>>>::YES, <IsCopy<$T>>::YES);
            ctx.step();
            ensure!(got == want, "Matrix<{}, {}, {}> is {}Copy", stringify!($T), stringify!($R), stringify!($C), if got { "" } else { "not " });
            ctx.outcome((stringify!($R), stringify!($C), stringify!($T), got));
        }) as fn(&mut Ctx)));
    )* };
}

/// A copy is independent of the original.
macro_rules! copy_use {
    ($N:ident, $n:expr, $t:ident) => {
        $t.push((stringify!($N), (|ctx: &mut Ctx| {
            let mut a = Vector::<u16, $N>::generate(|i| i as u16 + 1);
            for k in 0..$n {
                let b = a;
                a[k] = 999;
                ensure!((0..$n).all(|i| b[i] == i as u16 + 1), "a copy of length {} changed with the original", $n);
                ensure!((0..$n).all(|i| a[i] == if i == k { 999 } else { i as u16 + 1 }), "a write after copying length {}", $n);
                a = b;
                ctx.step();
            }
            ctx.outcome($n);
        }) as fn(&mut Ctx)));
    };
}

fn alias<A: 'static, B: 'static>(ctx: &mut Ctx, name: &str) {
    ctx.step();
    ensure!(TypeId::of::<A>() == TypeId::of::<B>(), "{} is another type", name);
    ctx.outcome(name);
}
mod p {
    pub use rowcol::prelude::*;
}

const NOP: &str = "allocates";
macro_rules! quiet {
    ($ctx:expr, $what:expr, $($e:expr),* $(,)?) => { $(
        let n = allocs(|| $e);
        $ctx.step();
        ensure!(n == 0, "{} {}: {} allocations ({})", stringify!($e), NOP, n, $what);
    )* };
}
/// Operations available for vectors of any length.
macro_rules! vec_quiet {
    ($N:ident, $n:expr, $t:ident) => {
        $t.push((stringify!($N), (|ctx: &mut Ctx| {
            type V = Vector<i64, $N>;
            type F = Vector<f64, $N>;
            let what = concat!("length ", stringify!($N));
            let a = V::generate(|i| i as i64 + 1);
            let b = V::generate(|i| 2 * i as i64 - 1);
            let f = F::generate(|i| i as f64 + 1.0);
            let mut w = a;
            let slice: [i64; $n] = a.into_inner();
            quiet!(ctx, what,
                V::new(slice), V::generate(|i| i as i64), a.into_inner(), a.as_slice().len(), w.as_slice_mut().len(),
                a.iter().count(), w.iter_mut().for_each(|x| *x += 1), a.into_iter().count(), a.into_iter().rev().count(),
                a.into_iter().nth(1), a.into_iter().nth_back(1), a.into_iter().fold(0, |s, x| s ^ x), a.len(), a.is_empty(),
                a.into_iter().collect::<V>(), (0..$n as i64).collect::<V>(), slice.iter().map(|x| x * 2).collect::<V>(),
                a.clone(), V::default(), V::zero(), a.is_zero(), V::min_value(), V::max_value(), a == b, a != b,
                a.as_ref().len(), w.as_mut().len(), a + b, a - b, a + &b, a - &b, &a + b, &a - b, &a + &b, &a - &b,
                { w += b; }, { w -= b; }, a * 3, { w *= 3; }, a / 3, { w /= 3; }, -a,
                a.dot(&b), a.sum(), a.clamped(0, 5), { w.clamp(0, 5); }, f.norm(), f.normalized(),
            );
            ctx.outcome(what);
        }) as fn(&mut Ctx)));
    };
}
macro_rules! pos_vec_quiet {
    ($N:ident, $n:expr, $t:ident) => {
        $t.push((stringify!($N), (|ctx: &mut Ctx| {
            type V = Vector<i64, $N>;
            let what = concat!("length ", stringify!($N));
            let mut a = V::generate(|i| i as i64 + 1);
            quiet!(ctx, what, a.max(), a.min(), a.max_by(|x, y| x.cmp(y)), a.min_by(|x, y| x.cmp(y)), a[0], a[$n - 1], { a[0] = 7; },
                a[U0::new()], a.into_chunks::<$N>().count(), a.into_chunks::<U1>().count(), a.into_chunks::<U1>().rev().count(),
                a.into_chunks::<U1>().nth(1), a.into_chunks::<U1>().len());
            ctx.outcome(what);
        }) as fn(&mut Ctx)));
    };
}
/// Operations available for matrices of any shape.
macro_rules! mat_quiet {
    ($R:ident, $C:ident, $t:ident) => {
        $t.push((concat!(stringify!($R), "x", stringify!($C)), (|ctx: &mut Ctx| {
            type M = Matrix<i64, $R, $C>;
            type Z = Matrix<num::Complex<i64>, $R, $C>;
            let what = concat!("shape ", stringify!($R), "x", stringify!($C));
            let g = |k: i64| M::generate(|(i, j)| (i * 10 + j) as i64 * k - 3);
            let (a, b) = (g(1), g(2));
            let f = Matrix::<f64, $R, $C>::generate(|(i, j)| (i * 10 + j) as f64);
            let z = Z::generate(|(i, j)| num::Complex::new(i as i64, j as i64));
            let v = Vector::<i64, $C>::generate(|i| i as i64);
            let d = Matrix::<i64, $C, $R>::generate(|(i, j)| (i * 10 + j) as i64 - 3);
            let mut w = a;
            quiet!(ctx, what,
                M::generate(|(i, j)| (i * 2 + j) as i64), a.dim(), a.rows(), a.cols(), a.all(|_, x| *x > -1000), a.any(|_, x| *x > 1000),
                a.map(|(i, _), x| x as f64 + i as f64), a.transposed(), M::default(), a.clone(), a == b, a != b,
                M::zero(), a.is_zero(), M::min_value(), M::max_value(), z.conjugate(), a.sum(), a.clamped(0, 9), { w.clamp(-2, 9); },
                a.rows_iter().count(), a.rows_iter().rev().count(), a.cols_iter().count(), a.cols_iter().rev().count(), a.rows_iter().nth(1),
                a.cols_iter().nth(1), a.rows_iter_ref().count(), a.rows_iter_ref().map(|x| x.len()).sum::<usize>(), a.cols_iter_ref().count(),
                a.cols_iter_ref().map(|c| c.map(|x| *x).sum::<i64>()).sum::<i64>(), a.cols_iter_ref().map(|c| c.rev().count()).sum::<usize>(),
                a + b, a - b, &a + b, &a - b, a + &b, a - &b, &a + &b, &a - &b, { w += b; }, { w -= b; }, -a, a * 3, a * &3, { w *= 3; },
                a / 3, a / &3, { w /= 3; }, a * d, a * &d, &a * d, &a * &d, a * v, a * &v,
                approx::ApproxEq::relative_eq(&f, &f, 1e-9, 1e-9), approx::ApproxEq::ulps_eq(&f, &f, 1e-9, 4), approx::ApproxEq::relative_ne(&f, &f, 1e-9, 1e-9),
            );
            if a.rows() > 0 && a.cols() > 0 {
                quiet!(ctx, what, a[(0, 0)], { w[(0, 0)] = 4; });
            }
            ctx.outcome(what);
        }) as fn(&mut Ctx)));
    };
}
macro_rules! square_quiet {
    ($N:ident, $n:expr, $t:ident) => {
        $t.push((stringify!($N), (|ctx: &mut Ctx| {
            type M = Matrix<i64, $N, $N>;
            let what = concat!("size ", stringify!($N));
            let a = M::generate(|(i, j)| if i == j { 1 } else { 0 });
            let mut w = a;
            quiet!(ctx, what, M::identity(), M::one(), a.pow(0), a.pow(1), a.pow(13), { w *= a; }, { w.transpose(); }, M::diag([2; $n]), a.max(), a.min(),
                a.max_by(|x, y| x.cmp(y)), a.min_by(|x, y| x.cmp(y)));
            ctx.outcome(what);
        }) as fn(&mut Ctx)));
    };
}
macro_rules! fields {
    ($t:ident; $($N:ident $n:expr),*) => { $(
        $t.push((stringify!($N), (|ctx: &mut Ctx| {
            type M = Matrix<f64, $N, $N>;
            let what = concat!("size ", stringify!($N));
            // upper triangular plus a lower-left entry; a permutation; and singular
            let a = M::generate(|(i, j)| if i <= j { (i + 2 * j + 1) as f64 } else if j == 0 && i == $n - 1 { 2.0 } else { 0.0 });
            let p = M::generate(|(i, j)| if (i + 1) % $n == j { 1.0 } else { 0.0 });
            let s = M::generate(|(i, j)| (i * j) as f64);
            quiet!(ctx, what, a.determinant(), p.determinant(), s.determinant(), a.inverse(), p.inverse(), s.inverse());
            if $n > 1 {
                fields!(@cof $N, ctx, what, a, p, s);
            }
            ctx.outcome(what);
        }) as fn(&mut Ctx)));
    )* };

    (@cof U1, $ctx:ident, $what:ident, $a:ident, $p:ident, $s:ident) => {};
    (@cof $N:ident, $ctx:ident, $what:ident, $a:ident, $p:ident, $s:ident) => {
        quiet!($ctx, $what, $a.cofactor((0, 0)), $a.cofactor((1, 0)), $p.cofactor((0, 1)), $s.cofactor((1, 1)));
    };
}

fn main() {
    let ck = Check::new("C18");
    let mut t: Table = vec![];
    for_lens!(vec_cases, t);
    ck.bound("vectors", "every length 0..=32 of 12 element types (zero-sized, odd-sized, over-aligned, owning, niche)");
    explore_table(&ck, "vectors", &t);

    let mut t: Table = vec![];
    for_mid_shapes!(push_shape_of, t, matrix, u8);
    for_large_shapes!(push_shape_of, t, matrix, u8);
    for_mid_shapes!(push_shape_of, t, matrix, Odd);
    for_large_shapes!(push_shape_of, t, matrix, f64);
    for_small_shapes!(push_shape_of, t, matrix, Wide);
    for_small_shapes!(push_shape_of, t, matrix, Tok);
    #[cfg(feature = "wide")]
    for_all_shapes!(push_shape_of, t, matrix, u16);
    ck.bound("matrices", "shapes 0x0..9x9 and selected ones up to 32x32 (thorough: all 1089)");
    explore_table(&ck, "matrices", &t);

    let mut t: Table = vec![];
    for_lens!(copy_case, t);
    for_lens!(copy_use, t);
    for_small_shapes!(copy_mat, t);
    #[cfg(feature = "wide")]
    for_mid_shapes!(copy_mat, t);
    for_large_shapes!(copy_mat, t);
    ck.bound("Copy", "every length 0..=32 of 11 element types; shapes 0x0..4x4 and selected ones up to 32x32 of 6 element types");
    explore_table(&ck, "Copy", &t);

    let mut t: Table = vec![];
    macro_rules! vec_alias {
        ($($name:ident $T:ty, $n:ident;)*) => { $(
            t.push((stringify!($name), (|ctx: &mut Ctx| alias::<p::$name, Vector<$T, rowcol::typenum::consts::$n>>(ctx, stringify!($name))) as fn(&mut Ctx)));
        )* };
    }
    vec_alias! {
        Vector1f32 f32, U1; Vector1f64 f64, U1; Vector2f32 f32, U2; Vector2f64 f64, U2; Vector3f32 f32, U3; Vector3f64 f64, U3;
        Vector4f32 f32, U4; Vector4f64 f64, U4; Vector5f32 f32, U5; Vector5f64 f64, U5; Vector6f32 f32, U6; Vector6f64 f64, U6;
        Vector7f32 f32, U7; Vector7f64 f64, U7; Vector8f32 f32, U8; Vector8f64 f64, U8; Vector9f32 f32, U9; Vector9f64 f64, U9;
        Vector10f32 f32, U10; Vector10f64 f64, U10;
    }
    macro_rules! mat_alias {
        ($($name:ident $T:ty, $n:ident;)*) => { $(
            t.push((stringify!($name), (|ctx: &mut Ctx| alias::<p::$name, Matrix<$T, rowcol::typenum::consts::$n, rowcol::typenum::consts::$n>>(ctx, stringify!($name))) as fn(&mut Ctx)));
        )* };
    }
    mat_alias! {
        Matrix2f32 f32, U2; Matrix2f64 f64, U2; Matrix3f32 f32, U3; Matrix3f64 f64, U3; Matrix4f32 f32, U4; Matrix4f64 f64, U4;
    }
    macro_rules! number {
        ($N:ident, $n:expr, $t:ident) => {
            $t.push((stringify!($N), (|ctx: &mut Ctx| {
                alias::<p::$N, rowcol::typenum::consts::$N>(ctx, stringify!($N));
                ensure_eq!(<p::$N as Unsigned>::to_usize(), $n, "the number named {}", stringify!($N));
            }) as fn(&mut Ctx)));
        };
    }
    for_lens!(number, t);
    ck.bound("aliases", "all 26 aliases and the numbers U0..=U32 of the prelude");
    explore_table(&ck, "aliases", &t);

    let mut t: Table = vec![];
    for_lens!(vec_quiet, t);
    for_pos_lens!(pos_vec_quiet, t);
    ck.bound("allocations of vector operations", "60 operations on every length 0..=32");
    explore_table(&ck, "allocations of vector operations", &t);
    let mut t: Table = vec![];
    for_small_shapes!(mat_quiet, t);
    mat_quiet!(U5, U5, t);
    mat_quiet!(U7, U2, t);
    mat_quiet!(U1, U9, t);
    mat_quiet!(U2, U16, t);
    mat_quiet!(U32, U1, t);
    mat_quiet!(U9, U9, t);
    for_squares!(square_quiet, t);
    fields!(t; U1 1, U2 2, U3 3, U4 4, U5 5, U6 6, U7 7);
    ck.bound("allocations of matrix operations", "66 operations on shapes 0x0..4x4 and six larger ones; 18 more on squares up to 17x17");
    explore_table(&ck, "allocations of matrix operations", &t);
    // the counter works
    ck.single("the allocation counter counts", |ctx| {
        ctx.step();
        if allocs(|| Box::new(3)) != 1 || allocs(|| Vec::<u8>::with_capacity(3)) != 1 {
            panic!("the allocation counter does not work");
        }
    });
    ck.finish();
}
