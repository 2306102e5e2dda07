//! C09: products and sums over the free non-commutative ring (every entry its own variable, or zero), and over all
//! small matrices of some finite rings.
use mc::ring::{Gf, Nc};
use mc::kinds::{self, *};
use mc::shapes::*;
use mc::*;
use rowcol::prelude::*;
use rowcol::vector::ArrayLen;
use rowcol::typenum::Unsigned;
use rowcol_mc as mc;
use num::Zero;

include!("../gen_products.rs");

/// Which entries are zero: every pattern if there are few entries, else the patterns with one zero, one non-zero,
/// all zero, none zero.
fn pattern(ctx: &mut Ctx, n: usize, all_up_to: usize) -> Vec<bool> {
    if n <= all_up_to {
        (0..n).map(|_| ctx.flip()).collect()
    } else {
        let k = ctx.choose(2 * n + 2);
        (0..n)
            .map(|i| match k {
                0 => false,
                1 => true,
                k if k < n + 2 => i == k - 2,
                k => i != k - n - 2,
            })
            .collect()
    }
}
fn var(zero: &[bool], base: usize, i: usize) -> Nc {
    if zero[base + i] {
        Nc::zero()
    } else {
        Nc::var(base + i)
    }
}
fn entries<T: Clone, R, Q>(m: &Matrix<T, R, Q>) -> Vec<T>
where
    R: ArrayLen<Vector<T, Q>>,
    Q: ArrayLen<T>,
{
    m.rows_iter_ref().flat_map(|r| r.iter().cloned()).collect()
}

fn product_of<R, K, Q>(ctx: &mut Ctx, all_up_to: usize)
where
    R: ArrayLen<Vector<Nc, K>> + ArrayLen<Vector<Nc, Q>>,
    K: ArrayLen<Vector<Nc, Q>> + ArrayLen<Nc>,
    Q: ArrayLen<Nc>,
{
    let (r, k, c) = (<R as rowcol::typenum::Unsigned>::to_usize(), <K as rowcol::typenum::Unsigned>::to_usize(), <Q as rowcol::typenum::Unsigned>::to_usize());
    let form = ctx.choose(4);
    let z = pattern(ctx, r * k + k * c, all_up_to);
    let a = Matrix::<Nc, R, K>::generate(|(i, j)| var(&z, 0, i * k + j));
    let b = Matrix::<Nc, K, Q>::generate(|(i, j)| var(&z, r * k, i * c + j));
    ctx.step();
    log!(ctx, "{}x{} times {}x{}, form {}", r, k, k, c, form);
    let p: Matrix<Nc, R, Q> = match form {
        0 => &a * &b,
        1 => &a * b.clone(),
        2 => a.clone() * &b,
        _ => a.clone() * b.clone(),
    };
    let (ea, eb) = (entries(&a), entries(&b));
    for i in 0..r {
        for j in 0..c {
            let mut w = Nc::zero();
            for l in 0..k {
                w += ea[i * k + l].clone() * eb[l * c + j].clone();
            }
            ensure_eq!(p[(i, j)], w, "entry ({}, {}) of {}x{} times {}x{} (form {}) of {:?} and {:?}", i, j, r, k, k, c, form, ea, eb);
        }
    }
    ctx.outcome(entries(&p));
    for (i, x) in ea.iter().enumerate() {
        ensure_eq!(*x, var(&z, 0, i), "left operand afterwards, entry {}", i);
    }
    for (i, x) in eb.iter().enumerate() {
        ensure_eq!(*x, var(&z, r * k, i), "right operand afterwards, entry {}", i);
    }
}
fn product<R, K, Q>(ctx: &mut Ctx)
where
    R: ArrayLen<Vector<Nc, K>> + ArrayLen<Vector<Nc, Q>>,
    K: ArrayLen<Vector<Nc, Q>> + ArrayLen<Nc>,
    Q: ArrayLen<Nc>,
{
    product_of::<R, K, Q>(ctx, 8)
}
fn product_deep<R, K, Q>(ctx: &mut Ctx)
where
    R: ArrayLen<Vector<Nc, K>> + ArrayLen<Vector<Nc, Q>>,
    K: ArrayLen<Vector<Nc, Q>> + ArrayLen<Nc>,
    Q: ArrayLen<Nc>,
{
    product_of::<R, K, Q>(ctx, 13)
}

fn assign<N>(ctx: &mut Ctx)
where
    N: ArrayLen<Vector<Nc, N>> + ArrayLen<Nc>,
{
    let n = <N as rowcol::typenum::Unsigned>::to_usize();
    let z = pattern(ctx, 2 * n * n, 8);
    let mut a = Matrix::<Nc, N, N>::generate(|(i, j)| var(&z, 0, i * n + j));
    let b = Matrix::<Nc, N, N>::generate(|(i, j)| var(&z, n * n, i * n + j));
    ctx.step();
    log!(ctx, "{}x{} *=", n, n);
    let (ea, eb) = (entries(&a), entries(&b));
    let sq = &a * &a;
    a *= b;
    for i in 0..n {
        for j in 0..n {
            let (mut w, mut q) = (Nc::zero(), Nc::zero());
            for l in 0..n {
                w += ea[i * n + l].clone() * eb[l * n + j].clone();
                q += ea[i * n + l].clone() * ea[l * n + j].clone();
            }
            ensure_eq!(a[(i, j)], w, "entry ({}, {}) of m *= of {:?} and {:?}", i, j, ea, eb);
            ensure_eq!(sq[(i, j)], q, "entry ({}, {}) of &m * &m of {:?}", i, j, ea);
        }
    }
}

fn mat_vec<R, K>(ctx: &mut Ctx)
where
    R: ArrayLen<Vector<Nc, K>> + ArrayLen<Nc>,
    K: ArrayLen<Nc>,
{
    let (r, k) = (<R as rowcol::typenum::Unsigned>::to_usize(), <K as rowcol::typenum::Unsigned>::to_usize());
    let by_ref = ctx.flip();
    let z = pattern(ctx, r * k + k, 9);
    let a = Matrix::<Nc, R, K>::generate(|(i, j)| var(&z, 0, i * k + j));
    let b = Vector::<Nc, K>::generate(|i| var(&z, r * k, i));
    ctx.step();
    log!(ctx, "{}x{} times vector, by reference: {}", r, k, by_ref);
    let ea = entries(&a);
    let s = a.sum();
    let p: Vector<Nc, R> = if by_ref { a * &b } else { a * b.clone() };
    for i in 0..r {
        let mut w = Nc::zero();
        for l in 0..k {
            w += ea[i * k + l].clone() * b[l].clone();
        }
        ensure_eq!(p[i], w, "entry {} of {}x{} times vector ({:?} and {:?})", i, r, k, ea, b);
    }
    let mut w = Nc::zero();
    for x in &ea {
        w += x.clone();
    }
    ensure_eq!(s, w, "sum of the matrix {:?}", ea);
    ctx.outcome(s);
    for i in 0..k {
        ensure_eq!(b[i], var(&z, r * k, i), "vector operand afterwards, entry {}", i);
    }
}

fn vector_ops<N>(ctx: &mut Ctx)
where
    N: ArrayLen<Nc>,
{
    let n = <N as rowcol::typenum::Unsigned>::to_usize();
    let z = pattern(ctx, 2 * n, 10);
    let a = Vector::<Nc, N>::generate(|i| var(&z, 0, i));
    let b = Vector::<Nc, N>::generate(|i| var(&z, n, i));
    ctx.step();
    log!(ctx, "dot and sum of vectors of {}", n);
    let (mut d, mut s, mut q) = (Nc::zero(), Nc::zero(), Nc::zero());
    for i in 0..n {
        q += a[i].clone() * a[i].clone();
        d += a[i].clone() * b[i].clone();
        s += a[i].clone();
    }
    ensure_eq!(a.dot(&b), d, "dot of {:?} and {:?}", a, b);
    ensure_eq!(a.dot(&a), q, "dot of {:?} and itself", a);
    ensure_eq!(a.sum(), s, "sum of {:?}", a);
    ctx.outcome((d, s));
}

fn cross(ctx: &mut Ctx) {
    let z = pattern(ctx, 6, 6);
    let a = Vector::<Nc, U3>::generate(|i| var(&z, 0, i));
    let b = Vector::<Nc, U3>::generate(|i| var(&z, 3, i));
    ctx.step();
    let c = a.cross(&b);
    let q = a.cross(&a);
    for i in 0..3 {
        let (j, k) = ((i + 1) % 3, (i + 2) % 3);
        let w = a[j].clone() * a[k].clone() - a[k].clone() * a[j].clone();
        ensure_eq!(q[i], w, "entry {} of the cross product of {:?} and itself", i, a);
    }
    for i in 0..3 {
        let (j, k) = ((i + 1) % 3, (i + 2) % 3);
        let w = a[j].clone() * b[k].clone() - a[k].clone() * b[j].clone();
        ensure_eq!(c[i], w, "entry {} of the cross product of {:?} and {:?}", i, a, b);
    }
    ctx.outcome(c.as_slice());
}

/// Every pair of matrices over Z/P: product, product with a vector, dot, cross, sums, through all forms.
fn finite<const P: u64, R, K, Q>(ctx: &mut Ctx, i: u64)
where
    R: ArrayLen<Vector<Gf<P>, K>> + ArrayLen<Vector<Gf<P>, Q>> + ArrayLen<Gf<P>>,
    K: ArrayLen<Vector<Gf<P>, Q>> + ArrayLen<Gf<P>>,
    Q: ArrayLen<Gf<P>>,
{
    let (r, k, c) = (<R as rowcol::typenum::Unsigned>::to_usize(), <K as rowcol::typenum::Unsigned>::to_usize(), <Q as rowcol::typenum::Unsigned>::to_usize());
    let mut x = i;
    let mut next = || {
        let d = x % P;
        x /= P;
        Gf::<P>(d)
    };
    let a = Matrix::<Gf<P>, R, K>::generate(|_| next());
    let b = Matrix::<Gf<P>, K, Q>::generate(|_| next());
    ctx.step();
    let ps = [&a * &b, &a * b.clone(), a.clone() * &b, a.clone() * b.clone()];
    for i in 0..r {
        for j in 0..c {
            let w = (0..k).map(|l| a[(i, l)].0 * b[(l, j)].0).sum::<u64>() % P;
            for (f, p) in ps.iter().enumerate() {
                ensure!(p[(i, j)].0 == w, "entry ({}, {}) of {:?} * {:?} over Z/{} (form {}) is {:?}, expected {}", i, j, a, b, P, f, p[(i, j)], w);
            }
        }
    }
    let col: Vector<Gf<P>, K> = b.rows_iter_ref().map(|r| r[0]).collect();
    let v = a.clone() * &col;
    let u = a.clone() * col;
    for i in 0..r {
        let w = ps[0][(i, 0)];
        ensure!(v[i] == w && u[i] == w, "{:?} times a vector over Z/{}: {:?} / {:?}", a, P, v, u);
    }
    let w = entries(&a).iter().map(|x| x.0).sum::<u64>() % P;
    ensure!(a.sum().0 == w, "sum of {:?} over Z/{} is {:?}", a, P, a.sum());
}

macro_rules! push_triple {
    ($R:ident, $K:ident, $Q:ident, $v:ident, $f:ident) => {
        $v.push((concat!(stringify!($R), "x", stringify!($K), "*", stringify!($K), "x", stringify!($Q)), $f::<$R, $K, $Q> as fn(&mut Ctx)));
    };
}

/// Every kind of element that generic code can tell apart.
fn kind_product<Z: Slot, R, K, Q>(ctx: &mut Ctx)
where
    R: ArrayLen<Vector<kinds::F<Z>, Q>> + ArrayLen<Vector<kinds::F<Z>, K>> + ArrayLen<kinds::F<Z>>,
    K: ArrayLen<Vector<kinds::F<Z>, Q>> + ArrayLen<kinds::F<Z>>,
    Q: ArrayLen<kinds::F<Z>>,
{
    kinds::reset();
    let (r, k, q) = (<R as Unsigned>::to_usize(), <K as Unsigned>::to_usize(), <Q as Unsigned>::to_usize());
    let l = ctx.choose(3);
    let a = || Matrix::<kinds::F<Z>, R, K>::generate(|(i, j)| kinds::F::new(value(l, i * k + j)));
    let b = || Matrix::<kinds::F<Z>, K, Q>::generate(|(i, j)| kinds::F::new(value(l + 1, i * q + j)));
    let p = match ctx.choose(4) {
        0 => a() * b(),
        1 => &a() * b(),
        2 => a() * &b(),
        _ => &a() * &b(),
    };
    ctx.step();
    for i in 0..r {
        for j in 0..q {
            let w = (0..k).map(|x| value(l, i * k + x) * value(l + 1, x * q + j)).sum::<i64>() % kinds::Q;
            ensure_eq!(p[(i, j)].v(), w, "entry {:?} of a product of {}x{} and {}x{}", (i, j), r, k, k, q);
        }
    }
    let x = || Vector::<kinds::F<Z>, K>::generate(|i| kinds::F::new(value(l + 2, i)));
    for (what, y) in [("by value", a() * x()), ("by reference", a() * &x())] {
        for i in 0..r {
            let w = (0..k).map(|j| value(l, i * k + j) * value(l + 2, j)).sum::<i64>() % kinds::Q;
            ensure_eq!(y[i].v(), w, "entry {} of a {}x{} matrix times a vector {}", i, r, k, what);
        }
    }
    let w = (0..r * k).map(|i| value(l, i)).sum::<i64>() % kinds::Q;
    ensure_eq!(a().sum().v(), w, "sum of a {}x{} matrix", r, k);
    drop(p);
    kinds::settle("end");
}
fn kind_vectors<Z: Slot, N: ArrayLen<kinds::F<Z>> + ArrayLen<Vector<kinds::F<Z>, N>>>(ctx: &mut Ctx) {
    kinds::reset();
    let n = <N as Unsigned>::to_usize();
    let l = ctx.choose(3);
    let v = |l| Vector::<kinds::F<Z>, N>::generate(|i| kinds::F::new(value(l, i)));
    ctx.step();
    let w = (0..n).map(|i| value(l, i) * value(l + 1, i)).sum::<i64>() % kinds::Q;
    ensure_eq!(v(l).dot(&v(l + 1)).v(), w, "dot product of length {}", n);
    let w = (0..n).map(|i| value(l, i) * value(l, i)).sum::<i64>() % kinds::Q;
    let x = v(l);
    ensure_eq!(x.dot(&x).v(), w, "dot product of a vector of length {} with itself", n);
    ensure_eq!(x.sum().v(), (0..n).map(|i| value(l, i)).sum::<i64>() % kinds::Q, "sum of length {}", n);
    drop(x);
    let m = |l| Matrix::<kinds::F<Z>, N, N>::generate(|(i, j)| kinds::F::new(value(l, i * n + j)));
    let mut a = m(l);
    a *= m(l + 1);
    for i in 0..n {
        for j in 0..n {
            let w = (0..n).map(|x| value(l, i * n + x) * value(l + 1, x * n + j)).sum::<i64>() % kinds::Q;
            ensure_eq!(a[(i, j)].v(), w, "entry {:?} after *= of {}x{}", (i, j), n, n);
        }
    }
    drop(a);
    kinds::settle("end");
}
fn kind_cross<Z: Slot>(ctx: &mut Ctx) {
    kinds::reset();
    let l = ctx.choose(3);
    let v = |l| Vector::<kinds::F<Z>, U3>::generate(|i| kinds::F::new(value(l, i)));
    let c = v(l).cross(&v(l + 1));
    ctx.step();
    for i in 0..3 {
        let (a, b) = ((i + 1) % 3, (i + 2) % 3);
        let w = (value(l, a) * value(l + 1, b) - value(l, b) * value(l + 1, a)).rem_euclid(kinds::Q);
        ensure_eq!(c[i].v(), w, "entry {} of a cross product", i);
    }
    drop(c);
    kinds::settle("end");
}
macro_rules! push_kind_triples {
    ($S:ident, $v:ident, $f:ident) => {
        push_kind_triples!(@ $S $v $f: U1 U1 U1, U2 U2 U2, U2 U3 U2, U3 U2 U3, U3 U3 U3, U1 U4 U1, U4 U1 U4, U4 U4 U4, U2 U8 U1, U1 U16 U2, U5 U5 U5, U8 U8 U8, U9 U3 U2, U2 U0 U2);
    };
    (@ $S:ident $v:ident $f:ident: $($R:ident $K:ident $Q:ident),*) => {
        $( $v.push((concat!(stringify!($S), ": ", stringify!($R), "x", stringify!($K), "x", stringify!($Q)), $f::<$S, $R, $K, $Q> as fn(&mut Ctx))); )*
    };
}

fn main() {
    let ck = Check::new("C09");
    let mut t: Table = vec![];
    for_products!(push_triple, t, product);
    ck.bound("products", "171 shape triples (all up to 3x3x3, every inner and outer length 0..=32); every zero pattern up to 8 entries, else none / one / all but one / all zero");
    explore_table(&ck, "products", &t);
    let mut t: Table = vec![];
    for_small_lens!(push_len, t, assign);
    push_len!(U8, 8, t, assign);
    push_len!(U9, 9, t, assign);
    explore_table(&ck, "product assignment", &t);
    let mut t: Table = vec![];
    for_small_shapes!(push_shape, t, mat_vec);
    for (n, f) in [
        ("U5xU5", mat_vec::<U5, U5> as fn(&mut Ctx)), ("U9xU8", mat_vec::<U9, U8>), ("U32xU1", mat_vec::<U32, U1>), ("U1xU32", mat_vec::<U1, U32>),
        ("U16xU2", mat_vec::<U16, U2>), ("U2xU17", mat_vec::<U2, U17>), ("U31xU3", mat_vec::<U31, U3>), ("U3xU31", mat_vec::<U3, U31>),
        ("U0xU32", mat_vec::<U0, U32>), ("U32xU0", mat_vec::<U32, U0>), ("U12xU11", mat_vec::<U12, U11>),
    ] {
        t.push((n, f));
    }
    ck.bound("matrix-vector", "all shapes up to 4x4 and 11 larger ones; every zero pattern up to 9 entries");
    explore_table(&ck, "matrix-vector", &t);
    let mut t: Table = vec![];
    for_lens!(push_len, t, vector_ops);
    ck.bound("vectors", "every length; every zero pattern up to length 5");
    explore_table(&ck, "vectors", &t);
    ck.explore("cross", cross);
    ck.bound("finite rings", "all pairs of 2x2 over GF(2), GF(3), Z/4, all 1x2 by 2x3 over Z/6 (1x2 by 2x2 quick), all 2x3 by 3x1 over GF(3), all 3x1 by 1x3 over Z/4");
    ck.range("2x2 over GF(2)", 1 << 8, finite::<2, U2, U2, U2>);
    ck.range("2x2 over GF(3)", 3u64.pow(8), finite::<3, U2, U2, U2>);
    ck.range("2x2 over Z/4", 4u64.pow(8), finite::<4, U2, U2, U2>);
    ck.range("1x2 by 2x2 over Z/6", 6u64.pow(6), finite::<6, U1, U2, U2>);
    ck.range("2x3 by 3x1 over GF(3)", 3u64.pow(9), finite::<3, U2, U3, U1>);
    ck.range("3x1 by 1x3 over Z/4", 4u64.pow(6), finite::<4, U3, U1, U3>);
    if ck.thorough {
        ck.range("3x3 over GF(2)", 1 << 18, finite::<2, U3, U3, U3>);
        ck.range("2x2 over Z/6", 6u64.pow(8), finite::<6, U2, U2, U2>);
        ck.range("1x2 by 2x3 over Z/6", 6u64.pow(8), finite::<6, U1, U2, U3>);
        let mut t: Table = vec![];
        for_products!(push_triple, t, product_deep);
        ck.bound("products, more patterns", "every zero pattern up to 13 entries");
        explore_table(&ck, "products, more patterns", &t);
    }
    #[cfg(feature = "wide")]
    {
        let mut t: Table = vec![];
        for_more_products!(push_triple, t, product);
        explore_table(&ck, "more products", &t);
        let mut t: Table = vec![];
        for_mid_shapes!(push_shape, t, mat_vec);
        for_large_shapes!(push_shape, t, mat_vec);
        explore_table(&ck, "more matrix-vector", &t);
    }
    let mut t: Table = vec![];
    for_kinds!(push_kind_triples, t, kind_product);
    for_kinds!(push_kind_lens, t, kind_vectors);
    for_kinds!(push_kind, t, kind_cross);
    ck.bound("kinds", format!("products, sums, dot and cross products for {}", kinds::KINDS));
    explore_table(&ck, "kinds", &t);
    ck.finish();
}
