//! C13: the inverse exists exactly for a non-zero determinant and then is one on both sides.
use mc::fam::*;
use mc::ring::Gf;
use mc::fam::F;
use mc::kinds::{self, *};
use mc::shapes::*;
use mc::*;
use num::rational::Ratio;
use num::{One, Zero};
use rowcol::prelude::*;
use rowcol::typenum::Unsigned;
use rowcol::vector::ArrayLen;
use rowcol_mc as mc;

/// Position and side of the first entry in which a product with the inverse differs from the identity.
fn wrong<T: Clone + Zero + One + PartialEq + std::ops::Mul<Output = T>>(
    n: usize,
    a: impl Fn(usize, usize) -> T,
    b: impl Fn(usize, usize) -> T,
) -> Option<(usize, usize)> {
    for i in 0..n {
        for j in 0..n {
            let s = (0..n).fold(T::zero(), |s, k| s + a(i, k) * b(k, j));
            if s != if i == j { T::one() } else { T::zero() } {
                return Some((i, j));
            }
        }
    }
    None
}

/// All matrices over GF(P) of one size.
fn finite<const P: u64, N>(ctx: &mut Ctx, x: u64)
where
    N: Unsigned + ArrayLen<Vector<Gf<P>, N>> + ArrayLen<Gf<P>>,
    Matrix<Gf<P>, N, N>: Inverse<Output = Matrix<Gf<P>, N, N>>,
{
    let n = <N as Unsigned>::to_usize();
    let a = digits::<P>(n, x);
    let m = Matrix::<Gf<P>, N, N>::generate(|(i, j)| Gf(a[i][j]));
    let d = leibniz_gf::<P>(&a, n);
    ctx.step();
    let r = m.inverse();
    match &r {
        None => ensure!(d == 0, "{:?} over GF({}) has determinant {} but no inverse is returned", m, P, d),
        Some(b) => {
            ensure!(d != 0, "{:?} over GF({}) has determinant 0 but an inverse is returned: {:?}", m, P, b);
            let w = wrong(n, |i, k| Gf(a[i][k]), |k, j| b[(k, j)]).or_else(|| wrong(n, |i, k| b[(i, k)], |k, j| Gf::<P>(a[k][j])));
            ensure!(w.is_none(), "{:?} over GF({}): the product with the returned inverse {:?} is not the identity at {:?}", m, P, b, w);
        }
    }
    if x % 4099 == 0 || x < 20_000 {
        ctx.outcome(r.map(|b| b[(0, n - 1)].0));
        log!(ctx, "inverse of {:?} over GF({}): {:?}", m, P, m.inverse());
    }
}

fn rational<N>(ctx: &mut Ctx, x: u64, vals: &[Ratio<i64>])
where
    N: Unsigned + ArrayLen<Vector<Ratio<i64>, N>> + ArrayLen<Ratio<i64>>,
    Matrix<Ratio<i64>, N, N>: Inverse<Output = Matrix<Ratio<i64>, N, N>>,
{
    let n = <N as Unsigned>::to_usize();
    let mut y = x;
    let mut a = vec![vec![Ratio::zero(); n]; n];
    for r in a.iter_mut() {
        for c in r.iter_mut() {
            *c = vals[(y % vals.len() as u64) as usize];
            y /= vals.len() as u64;
        }
    }
    let z: Vec<Vec<i128>> = a.iter().map(|r| r.iter().map(|c| (*c * Ratio::from_integer(2)).to_integer() as i128).collect()).collect();
    let d = leibniz(&z);
    let m = Matrix::<Ratio<i64>, N, N>::generate(|(i, j)| a[i][j]);
    ctx.step();
    let r = m.inverse();
    match &r {
        None => ensure!(d == 0, "{:?} has a non-zero determinant but no inverse is returned", m),
        Some(b) => {
            ensure!(d != 0, "{:?} has determinant 0 but an inverse is returned: {:?}", m, b);
            let w = wrong(n, |i, k| a[i][k], |k, j| b[(k, j)]).or_else(|| wrong(n, |i, k| b[(i, k)], |k, j| a[k][j]));
            ensure!(w.is_none(), "{:?}: the product with the returned inverse {:?} is not the identity at {:?}", m, b, w);
        }
    }
    if x < 20_000 {
        ctx.outcome(r.map(|b| (*b[(0, n - 1)].numer(), *b[(0, n - 1)].denom())));
    }
}

/// Patterns of zero pivots for every size.
fn patterns<N>(ctx: &mut Ctx)
where
    N: Unsigned + ArrayLen<Vector<F, N>> + ArrayLen<F>,
    Matrix<F, N, N>: Inverse<Output = Matrix<F, N, N>>,
{
    let n = <N as Unsigned>::to_usize();
    let (a, d, what) = pick_lpu(ctx, n, 5, 4, perms_of, 32);
    let m = Matrix::<F, N, N>::generate(|(i, j)| a[i][j]);
    let r = m.inverse();
    ctx.step();
    ensure!((0..n).all(|i| (0..n).all(|j| m[(i, j)] == a[i][j])), "inverse() changed its operand");
    match &r {
        None => ensure!(d.0 == 0, "{}x{} {}: {:?} over GF({}) has determinant {:?} but no inverse is returned", n, n, what, m, P, d),
        Some(b) => {
            ensure!(d.0 != 0, "{}x{} {}: {:?} over GF({}) has determinant 0 but an inverse is returned", n, n, what, m, P);
            let w = wrong(n, |i, k| a[i][k], |k, j| b[(k, j)]).or_else(|| wrong(n, |i, k| b[(i, k)], |k, j| a[k][j]));
            ensure!(w.is_none(), "{}x{} {}: the product of {:?} over GF({}) with its inverse is not the identity at {:?}", n, n, what, m, P, w);
        }
    }
    ctx.outcome((n, r.map(|b| b[(0, n - 1)].0)));
    log!(ctx, "{}x{} {}: determinant {:?}", n, n, what, d);
}

/// Matrices for every kind of element: dense, zero pivots, permuted, triangular, singular.
fn kind_entry(what: usize, n: usize, i: usize, j: usize) -> i64 {
    let x = value(what, i * n + j).max(1);
    match what {
        0 | 1 => x,
        2 => if i + j == 0 { 0 } else { x },
        3 => if i == j && i < 2 { 0 } else { x },
        4 => if i + j + 1 == n { x } else { 0 },
        5 => if i <= j { x } else { 0 },
        6 => if i + 1 == n { 3 * value(what, j).max(1) % kinds::Q } else { x },
        7 => if j == n / 2 { 0 } else { x },
        _ => (i == j) as i64,
    }
}
fn kind_det(a: &[Vec<i64>]) -> i64 {
    let mut a = a.to_vec();
    let n = a.len();
    let mut d = 1;
    for c in 0..n {
        let Some(p) = (c..n).find(|r| a[*r][c] != 0) else { return 0 };
        if p != c {
            a.swap(p, c);
            d = -d;
        }
        d = d * a[c][c] % kinds::Q;
        let k = kinds::inv(a[c][c]);
        for r in c + 1..n {
            let f = a[r][c] * k % kinds::Q;
            for x in c..n {
                a[r][x] = (a[r][x] - f * a[c][x]).rem_euclid(kinds::Q);
            }
        }
    }
    d.rem_euclid(kinds::Q)
}
fn kind_rows(what: usize, n: usize) -> Vec<Vec<i64>> {
    (0..n).map(|i| (0..n).map(|j| kind_entry(what, n, i, j)).collect()).collect()
}

/// Every kind of element that generic code can tell apart.
fn kind<Z: Slot, N>(ctx: &mut Ctx)
where
    N: Unsigned + ArrayLen<Vector<kinds::F<Z>, N>> + ArrayLen<kinds::F<Z>>,
    Matrix<kinds::F<Z>, N, N>: Inverse<Output = Matrix<kinds::F<Z>, N, N>>,
{
    kinds::reset();
    let n = <N as Unsigned>::to_usize();
    let what = ctx.choose(9);
    let a = kind_rows(what, n);
    let m = Matrix::<kinds::F<Z>, N, N>::generate(|(i, j)| kinds::F::new(a[i][j]));
    ctx.step();
    let b = m.inverse();
    ensure_eq!(b.is_some(), kind_det(&a) != 0, "whether {:?} over GF(251) is inverted", a);
    if let Some(b) = &b {
        for i in 0..n {
            for j in 0..n {
                let (x, y) = (0..n).fold((0, 0), |(x, y), k| (x + a[i][k] * b[(k, j)].v(), y + b[(i, k)].v() * a[k][j]));
                ensure!(x % kinds::Q == (i == j) as i64 && y % kinds::Q == (i == j) as i64, "the product of {:?} over GF(251) and its inverse {:?} is not the identity at {:?}", a, b, (i, j));
            }
        }
    }
    ensure!((0..n).all(|i| (0..n).all(|j| m[(i, j)].v() == a[i][j])), "inverse() changed its operand");
    drop((m, b));
    kinds::settle("end");
}

macro_rules! push_kind_sizes {
    ($S:ident, $v:ident) => {
        push_kind_sizes!(@ $S $v U1 1, U2 2, U3 3, U4 4, U5 5, U6 6, U9 9, U17 17);
    };
    (@ $S:ident $v:ident $($N:ident $n:literal),*) => { $( {
        fn f(ctx: &mut Ctx) {
            kind::<$S, $N>(ctx)
        }
        $v.push((concat!(stringify!($S), ": ", stringify!($N)), f as fn(&mut Ctx)));
    } )* };
}

fn main() {
    let ck = Check::new("C13");
    macro_rules! all {
        ($p:literal, $N:ident, $n:literal) => {
            ck.range(concat!("all ", $n, "x", $n, " over GF(", $p, ")"), count::<$p>($n), finite::<$p, $N>)
        };
    }
    all!(7, U1, 1);
    all!(7, U2, 2);
    all!(3, U3, 3);
    all!(5, U3, 3);
    all!(2, U4, 4);
    all!(3, U4, 4);
    if ck.thorough || !cfg!(debug_assertions) {
        all!(2, U5, 5);
    }
    if ck.thorough {
        all!(11, U2, 2);
        all!(7, U3, 3);
    }
    ck.bound("finite fields", "1x1, 2x2 over GF(7); 3x3 over GF(3), GF(5); 4x4 over GF(2), GF(3); 5x5 over GF(2); thorough: 2x2 over GF(11), 3x3 over GF(7)");
    let r = |n, d| Ratio::new(n, d);
    ck.range("all 1x1 over {-2,-1,0,1/2,3}", 5, |c, i| rational::<U1>(c, i, &[r(-2, 1), r(-1, 1), r(0, 1), r(1, 2), r(3, 1)]));
    ck.range("all 2x2 over {-2,-1,0,1/2,3}", 5u64.pow(4), |c, i| rational::<U2>(c, i, &[r(-2, 1), r(-1, 1), r(0, 1), r(1, 2), r(3, 1)]));
    ck.range("all 3x3 over {-2,0,1/2,3}", 4u64.pow(9), |c, i| rational::<U3>(c, i, &[r(-2, 1), r(0, 1), r(1, 2), r(3, 1)]));
    ck.range("all 4x4 over {-1,2}", 1 << 16, |c, i| rational::<U4>(c, i, &[r(-1, 1), r(2, 1)]));
    ck.range("all 4x4 over {0,-1/2}", 1 << 16, |c, i| rational::<U4>(c, i, &[r(0, 1), r(-1, 2)]));
    ck.bound("rationals", "1x1 and 2x2 over {-2,-1,0,1/2,3}; 3x3 over {-2,0,1/2,3}; 4x4 over {-1,2} and {0,-1/2}");
    let mut t: Table = vec![];
    for_pos_lens!(push_len, t, patterns);
    ck.bound("zero pivots", "every permutation up to 5x5 (above: adjacent and outer transpositions, cyclic shifts, reversal) x position of a zero on the diagonal x density of the factors, every size 1..=32");
    explore_table(&ck, "zero pivots", &t);
    let mut t: Table = vec![];
    for_kinds!(push_kind_sizes, t);
    ck.bound("kinds", format!("9 matrices of sizes 1..=6, 9, 17 with {}", kinds::KINDS));
    explore_table(&ck, "kinds", &t);
    ck.finish();
}
