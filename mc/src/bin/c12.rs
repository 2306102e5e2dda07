//! C12: cofactors against the determinant of the minor.
use mc::fam::*;
use mc::ring::{Gf, Poly};
use mc::fam::F;
use mc::kinds::{self, *};
use mc::shapes::*;
use mc::*;
use num::rational::Ratio;
use num::Zero;
use rowcol::prelude::*;
use rowcol::typenum::Unsigned;
use rowcol::vector::ArrayLen;
use rowcol_mc as mc;

/// All matrices over Z/P of one size, all positions.
fn finite<const P: u64, N>(ctx: &mut Ctx, x: u64)
where
    N: Unsigned + ArrayLen<Vector<Gf<P>, N>> + ArrayLen<Gf<P>>,
    Matrix<Gf<P>, N, N>: Cofactor<Output = Gf<P>>,
{
    let n = <N as Unsigned>::to_usize();
    let a = digits::<P>(n, x);
    let m = Matrix::<Gf<P>, N, N>::generate(|(i, j)| Gf(a[i][j]));
    for i in 0..n {
        for j in 0..n {
            let mut b = [[0; 6]; 6];
            for k in 0..n - 1 {
                for l in 0..n - 1 {
                    b[k][l] = a[k + (k >= i) as usize][l + (l >= j) as usize];
                }
            }
            let w = leibniz_gf::<P>(&b, n - 1);
            let w = if (i + j) % 2 == 0 { w } else { (P - w) % P };
            let c = m.cofactor((i, j));
            ctx.step();
            ensure!(c.0 == w, "the cofactor of {:?} over Z/{} at {:?} is {:?}, expected {}", m, P, (i, j), c, w);
        }
    }
    if x % 4099 == 0 || x < 20_000 {
        ctx.outcome(m.cofactor((n - 1, 0)).0);
        log!(ctx, "all cofactors of {:?} over Z/{}", m, P);
    }
}

/// Signs and fractions.
fn rational<N>(ctx: &mut Ctx, x: u64, vals: &[Ratio<i64>])
where
    N: Unsigned + ArrayLen<Vector<Ratio<i64>, N>> + ArrayLen<Ratio<i64>>,
    Matrix<Ratio<i64>, N, N>: Cofactor<Output = Ratio<i64>>,
{
    let n = <N as Unsigned>::to_usize();
    let mut y = x;
    let mut a = vec![vec![Ratio::zero(); n]; n];
    for r in a.iter_mut() {
        for c in r.iter_mut() {
            *c = vals[(y % vals.len() as u64) as usize];
            y /= vals.len() as u64;
        }
    }
    let z: Vec<Vec<i128>> = a.iter().map(|r| r.iter().map(|c| (*c * Ratio::from_integer(2)).to_integer() as i128).collect()).collect();
    let m = Matrix::<Ratio<i64>, N, N>::generate(|(i, j)| a[i][j]);
    for i in 0..n {
        for j in 0..n {
            let w = leibniz(&minor(&z, i, j)) as i64;
            let w = Ratio::new(if (i + j) % 2 == 0 { w } else { -w }, 1 << (n - 1));
            let c = m.cofactor((i, j));
            ctx.step();
            ensure!(c == w, "the cofactor of {:?} at {:?} is {:?}, expected {:?}", m, (i, j), c, w);
        }
    }
}

/// Distinct symbols: the closed forms for sizes 2 and 3 (with minors of sizes 1 and 2), for every value.
fn symbolic<N>(ctx: &mut Ctx)
where
    N: Unsigned + ArrayLen<Vector<Poly, N>> + ArrayLen<Poly>,
    Matrix<Poly, N, N>: Cofactor<Output = Poly>,
{
    let n = <N as Unsigned>::to_usize();
    let a: Vec<Vec<Poly>> =
        (0..n).map(|i| (0..n).map(|j| if ctx.flip() { Poly::zero() } else { Poly::var(i * n + j) }).collect()).collect();
    let m = Matrix::<Poly, N, N>::generate(|(i, j)| a[i][j].clone());
    for i in 0..n {
        for j in 0..n {
            let b = minor(&a, i, j);
            let mut w = Poly::zero();
            for k in 0..(1..=(n - 1) as u64).product() {
                let p = permutation(n - 1, k);
                let s = sign(&p) * if (i + j) % 2 == 0 { 1 } else { -1 };
                w = w + (0..n - 1).fold(Poly::int(s), |t, i| t * b[i][p[i]].clone());
            }
            let c = m.cofactor((i, j));
            ctx.step();
            ensure!(c == w, "the cofactor of {:?} at {:?} is {:?}, expected {:?}", m, (i, j), c, w);
            ctx.outcome(&c);
        }
    }
    ensure!((0..n).all(|i| (0..n).all(|j| m[(i, j)] == a[i][j])), "cofactor() changed its operand");
    log!(ctx, "all cofactors of {:?}", m);
}

/// Patterns of zero leading minors, every position.
fn patterns<N>(ctx: &mut Ctx)
where
    N: Unsigned + ArrayLen<Vector<F, N>> + ArrayLen<F>,
    Matrix<F, N, N>: Cofactor<Output = F>,
{
    let n = <N as Unsigned>::to_usize();
    let (a, _, what) = pick_lpu(ctx, n, 5, if n <= 5 { 4 } else { 1 }, if n <= 9 { adjacent } else { first }, 8);
    let m = Matrix::<F, N, N>::generate(|(i, j)| a[i][j]);
    for i in 0..n {
        for j in 0..n {
            if n > 12 && (i * n + j) % 7 != 0 && i != j && i + j != n - 1 {
                continue;
            }
            let w = det_elim(&minor(&a, i, j));
            let w = if (i + j) % 2 == 0 { w } else { -w };
            let c = m.cofactor((i, j));
            ctx.step();
            ensure!(c == w, "{}x{} ({}): the cofactor of {:?} over Z/{} at {:?} is {:?}, expected {:?}", n, n, what, m, P, (i, j), c, w);
            ctx.outcome(w);
        }
    }
    log!(ctx, "{}x{} {}: all cofactors", n, n, what);
}
fn first(n: usize) -> Vec<Vec<usize>> {
    let id: Vec<usize> = (0..n).collect();
    let mut p = id.clone();
    p.swap(0, 1);
    vec![id, p]
}

/// Positions outside the matrix.
fn outside<N>(ctx: &mut Ctx)
where
    N: Unsigned + ArrayLen<Vector<F, N>> + ArrayLen<F>,
    Matrix<F, N, N>: Cofactor<Output = F>,
{
    let n = <N as Unsigned>::to_usize();
    let mut c: Vec<usize> = (0..=2 * n + 2).collect();
    c.extend([n * n, 1 << 32, (1 << 32) + 1, isize::MAX as usize, 1 << 63, (1 << 63) + 1, usize::MAX - 1, usize::MAX]);
    for k in 0..n {
        c.push(usize::MAX - k);
        c.push((1 << 63) + k);
    }
    c.sort();
    c.dedup();
    let a = lpu(&(0..n).collect::<Vec<_>>(), None, 0, 0).0;
    let m = Matrix::<F, N, N>::generate(|(i, j)| a[i][j]);
    let i = *ctx.pick(&c);
    for &j in &c {
        let r = catch(|| m.cofactor((i, j)));
        ctx.step();
        if i < n && j < n {
            ensure!(r.is_ok(), "cofactor({:?}) of a {}x{} matrix panics: {:?}", (i, j), n, n, r);
        } else {
            ensure!(r.is_err(), "cofactor({:?}) of a {}x{} matrix returns {:?}", (i, j), n, n, r);
        }
    }
    ctx.outcome((n, i < n));
    log!(ctx, "{}x{} row {} with {} columns", n, n, i, c.len());
}

/// Matrices for every kind of element: dense, zero pivots, permuted, triangular, singular.
fn kind_entry(what: usize, n: usize, i: usize, j: usize) -> i64 {
    let x = value(what, i * n + j).max(1);
    match what {
        0 | 1 => x,
        2 => if i + j == 0 { 0 } else { x },
        3 => if i == j && i < 2 { 0 } else { x },
        4 => if i + j + 1 == n { x } else { 0 },
        5 => if i <= j { x } else { 0 },
        6 => if i + 1 == n { 3 * value(what, j).max(1) % kinds::Q } else { x },
        7 => if j == n / 2 { 0 } else { x },
        _ => (i == j) as i64,
    }
}
fn kind_det(a: &[Vec<i64>]) -> i64 {
    let mut a = a.to_vec();
    let n = a.len();
    let mut d = 1;
    for c in 0..n {
        let Some(p) = (c..n).find(|r| a[*r][c] != 0) else { return 0 };
        if p != c {
            a.swap(p, c);
            d = -d;
        }
        d = d * a[c][c] % kinds::Q;
        let k = kinds::inv(a[c][c]);
        for r in c + 1..n {
            let f = a[r][c] * k % kinds::Q;
            for x in c..n {
                a[r][x] = (a[r][x] - f * a[c][x]).rem_euclid(kinds::Q);
            }
        }
    }
    d.rem_euclid(kinds::Q)
}
fn kind_rows(what: usize, n: usize) -> Vec<Vec<i64>> {
    (0..n).map(|i| (0..n).map(|j| kind_entry(what, n, i, j)).collect()).collect()
}

/// Every kind of element that generic code can tell apart.
fn kind<Z: Slot, N>(ctx: &mut Ctx)
where
    N: Unsigned + ArrayLen<Vector<kinds::F<Z>, N>> + ArrayLen<kinds::F<Z>>,
    Matrix<kinds::F<Z>, N, N>: Cofactor<Output = kinds::F<Z>>,
{
    kinds::reset();
    let n = <N as Unsigned>::to_usize();
    let what = ctx.choose(9);
    let a = kind_rows(what, n);
    // a zero leading minor makes larger ones expensive
    if n > 5 && (1..=n).any(|k| kind_det(&a[..k].iter().map(|r| r[..k].to_vec()).collect::<Vec<_>>()) == 0) {
        return;
    }
    let m = Matrix::<kinds::F<Z>, N, N>::generate(|(i, j)| kinds::F::new(a[i][j]));
    for i in 0..n {
        for j in 0..n {
            let minor: Vec<Vec<i64>> = (0..n).filter(|r| *r != i).map(|r| (0..n).filter(|c| *c != j).map(|c| a[r][c]).collect()).collect();
            let d = kind_det(&minor);
            ctx.step();
            ensure_eq!(m.cofactor((i, j)).v(), if (i + j) % 2 == 0 { d } else { (kinds::Q - d) % kinds::Q }, "cofactor {:?} of {:?} over GF(251)", (i, j), a);
        }
    }
    drop(m);
    kinds::settle("end");
}

macro_rules! push_kind_sizes {
    ($S:ident, $v:ident) => {
        push_kind_sizes!(@ $S $v U2 2, U3 3, U4 4, U5 5, U6 6);
    };
    (@ $S:ident $v:ident $($N:ident $n:literal),*) => { $( {
        fn f(ctx: &mut Ctx) {
            kind::<$S, $N>(ctx)
        }
        $v.push((concat!(stringify!($S), ": ", stringify!($N)), f as fn(&mut Ctx)));
    } )* };
}

fn main() {
    let ck = Check::new("C12");
    let mut t: Table = vec![];
    push_len!(U2, 2, t, symbolic);
    push_len!(U3, 3, t, symbolic);
    ck.bound("polynomial ring", "sizes 2 and 3 with distinct symbols, every zero pattern, every position");
    explore_table(&ck, "polynomial ring", &t);

    macro_rules! all {
        ($p:literal, $N:ident, $n:literal) => {
            ck.range(concat!("all ", $n, "x", $n, " over Z/", $p), count::<$p>($n), finite::<$p, $N>)
        };
    }
    all!(7, U2, 2);
    all!(3, U3, 3);
    all!(5, U3, 3);
    all!(2, U4, 4);
    if ck.thorough || !cfg!(debug_assertions) {
        all!(3, U4, 4);
    }
    if ck.thorough {
        all!(7, U3, 3);
        all!(2, U5, 5);
    }
    ck.bound("finite fields", "every matrix and position: 2x2 over GF(7), 3x3 over GF(3), GF(5), 4x4 over GF(2), GF(3); thorough: 3x3 over GF(7), 5x5 over GF(2)");

    let r = |n, d| Ratio::new(n, d);
    ck.range("all 3x3 over {-2,0,1/2,3}", 4u64.pow(9), |c, i| rational::<U3>(c, i, &[r(-2, 1), r(0, 1), r(1, 2), r(3, 1)]));
    ck.range("all 4x4 over {-1,2}", 1 << 16, |c, i| rational::<U4>(c, i, &[r(-1, 1), r(2, 1)]));
    ck.range("all 4x4 over {0,-1/2}", 1 << 16, |c, i| rational::<U4>(c, i, &[r(0, 1), r(-1, 2)]));
    ck.bound("rationals", "3x3 over {-2,0,1/2,3}; 4x4 over {-1,2} and {0,-1/2}, every position");

    let mut t: Table = vec![];
    macro_rules! from2 {
        (U1, $n:expr, $v:ident, $f:ident) => {};
        ($N:ident, $n:expr, $v:ident, $f:ident) => {
            $v.push((stringify!($N), $f::<$N> as fn(&mut Ctx)));
        };
    }
    for_pos_lens!(from2, t, patterns);
    ck.bound("zero pivots", "every pattern of zero leading minors x zero of the diagonal x density of the factors up to 5x5, single zero minors up to 9x9, two patterns up to 32x32; every position up to 12x12, every seventh and both diagonals above");
    explore_table(&ck, "zero pivots", &t);
    let mut t: Table = vec![];
    for_pos_lens!(from2, t, outside);
    ck.bound("positions", "every size 2..=32; rows and columns 0..=2n+2, n^2 and around 2^32, 2^63 and the maximum, all pairs");
    explore_table(&ck, "positions", &t);
    let mut t: Table = vec![];
    for_kinds!(push_kind_sizes, t);
    ck.bound("kinds", format!("every position of 9 matrices of sizes 2..=5 and 3 of size 6 with {}", kinds::KINDS));
    explore_table(&ck, "kinds", &t);
    ck.finish();
}
