//! C11: the determinant against the signed sum over permutations.
use mc::fam::*;
use mc::ring::{Gf, Poly};
use mc::fam::F;
use mc::kinds::{self, *};
use mc::shapes::*;
use mc::*;
use num::rational::Ratio;
use num::Zero;
use rowcol::prelude::*;
use rowcol::typenum::Unsigned;
use rowcol::vector::ArrayLen;
use rowcol_mc as mc;

/// All matrices over Z/P of one size.
fn finite<const P: u64, N>(ctx: &mut Ctx, i: u64)
where
    N: Unsigned + ArrayLen<Vector<Gf<P>, N>> + ArrayLen<Gf<P>>,
    Matrix<Gf<P>, N, N>: Determinant<Output = Gf<P>>,
{
    let n = <N as Unsigned>::to_usize();
    let a = digits::<P>(n, i);
    let m = Matrix::<Gf<P>, N, N>::generate(|(i, j)| Gf(a[i][j]));
    let w = leibniz_gf::<P>(&a, n);
    let d = m.determinant();
    ctx.step();
    ensure!(d.0 == w, "the determinant of {:?} over Z/{} is {:?}, expected {}", m, P, d, w);
    if i % 4099 == 0 || i < 20_000 {
        ctx.outcome(w);
        log!(ctx, "det {:?} = {:?} over Z/{}", m, d, P);
    }
}

/// The same for all rationals of a small set.
fn rational<N>(ctx: &mut Ctx, i: u64, vals: &[Ratio<i64>])
where
    N: Unsigned + ArrayLen<Vector<Ratio<i64>, N>> + ArrayLen<Ratio<i64>>,
    Matrix<Ratio<i64>, N, N>: Determinant<Output = Ratio<i64>>,
{
    let n = <N as Unsigned>::to_usize();
    let mut x = i;
    let mut a = vec![vec![Ratio::zero(); n]; n];
    for r in a.iter_mut() {
        for c in r.iter_mut() {
            *c = vals[(x % vals.len() as u64) as usize];
            x /= vals.len() as u64;
        }
    }
    // common denominator 2
    let z: Vec<Vec<i128>> = a.iter().map(|r| r.iter().map(|c| (*c * Ratio::from_integer(2)).to_integer() as i128).collect()).collect();
    let w = Ratio::new(leibniz(&z) as i64, 1 << n);
    let m = Matrix::<Ratio<i64>, N, N>::generate(|(i, j)| a[i][j]);
    let d = m.determinant();
    ctx.step();
    ensure!(d == w, "the determinant of {:?} is {:?}, expected {:?}", m, d, w);
    if i % 257 == 0 {
        ctx.outcome((*w.numer(), *w.denom()));
    }
}

/// Distinct symbols with every pattern of zeros: decides the closed forms over every commutative ring.
fn symbolic<N>(ctx: &mut Ctx)
where
    N: Unsigned + ArrayLen<Vector<Poly, N>> + ArrayLen<Poly>,
    Matrix<Poly, N, N>: Determinant<Output = Poly>,
{
    let n = <N as Unsigned>::to_usize();
    let a: Vec<Vec<Poly>> =
        (0..n).map(|i| (0..n).map(|j| if ctx.flip() { Poly::zero() } else { Poly::var(i * n + j) }).collect()).collect();
    let mut w = Poly::zero();
    for k in 0..(1..=n as u64).product() {
        let p = permutation(n, k);
        let t = (0..n).fold(Poly::int(sign(&p)), |t, i| t * a[i][p[i]].clone());
        w = w + t;
    }
    let m = Matrix::<Poly, N, N>::generate(|(i, j)| a[i][j].clone());
    let d = m.determinant();
    ctx.step();
    ensure!(d == w, "the determinant of {:?} is {:?}, expected {:?}", m, d, w);
    ensure!((0..n).all(|i| (0..n).all(|j| m[(i, j)] == a[i][j])), "determinant() changed its operand");
    ctx.outcome(&w);
    log!(ctx, "det {:?} = {:?}", m, d);
}

fn check<N>(ctx: &mut Ctx, a: &[Vec<F>], w: F, what: &str)
where
    N: Unsigned + ArrayLen<Vector<F, N>> + ArrayLen<F>,
    Matrix<F, N, N>: Determinant<Output = F>,
{
    let n = <N as Unsigned>::to_usize();
    let m = Matrix::<F, N, N>::generate(|(i, j)| a[i][j]);
    let d = m.determinant();
    ctx.step();
    ensure!(d == w, "{}x{} ({}): the determinant of {:?} over Z/{} is {:?}, expected {:?}", n, n, what, m, P, d, w);
    ctx.outcome(w);
    log!(ctx, "{}x{} {}: {:?}", n, n, what, d);
}

/// Every pattern of zero leading minors.
fn patterns<N>(ctx: &mut Ctx)
where
    N: Unsigned + ArrayLen<Vector<F, N>> + ArrayLen<F>,
    Matrix<F, N, N>: Determinant<Output = F>,
{
    let n = <N as Unsigned>::to_usize();
    let (a, w, what) = pick_lpu(ctx, n, if n == 6 { 6 } else { 5 }, if n <= 5 { 4 } else { 1 }, adjacent, 32);
    check::<N>(ctx, &a, w, &what);
}

/// Every matrix with one non-zero entry per row and column (all pivots but the right ones are zero).
fn monomial<N>(ctx: &mut Ctx)
where
    N: Unsigned + ArrayLen<Vector<F, N>> + ArrayLen<F>,
    Matrix<F, N, N>: Determinant<Output = F>,
{
    let n = <N as Unsigned>::to_usize();
    let p = permutation(n, ctx.choose((1..=n).product()) as u64);
    let mut a = vec![vec![Gf(0); n]; n];
    let mut w = F::of(sign(&p));
    for i in 0..n {
        a[i][p[i]] = Gf(i as u64 + 2);
        w *= a[i][p[i]];
    }
    check::<N>(ctx, &a, w, &format!("monomial {:?}", p));
}

/// Matrices for every kind of element: dense, zero pivots, permuted, triangular, singular.
fn kind_entry(what: usize, n: usize, i: usize, j: usize) -> i64 {
    let x = value(what, i * n + j).max(1);
    match what {
        0 | 1 => x,
        2 => if i + j == 0 { 0 } else { x },
        3 => if i == j && i < 2 { 0 } else { x },
        4 => if i + j + 1 == n { x } else { 0 },
        5 => if i <= j { x } else { 0 },
        6 => if i + 1 == n { 3 * value(what, j).max(1) % kinds::Q } else { x },
        7 => if j == n / 2 { 0 } else { x },
        _ => (i == j) as i64,
    }
}
fn kind_det(a: &[Vec<i64>]) -> i64 {
    let mut a = a.to_vec();
    let n = a.len();
    let mut d = 1;
    for c in 0..n {
        let Some(p) = (c..n).find(|r| a[*r][c] != 0) else { return 0 };
        if p != c {
            a.swap(p, c);
            d = -d;
        }
        d = d * a[c][c] % kinds::Q;
        let k = kinds::inv(a[c][c]);
        for r in c + 1..n {
            let f = a[r][c] * k % kinds::Q;
            for x in c..n {
                a[r][x] = (a[r][x] - f * a[c][x]).rem_euclid(kinds::Q);
            }
        }
    }
    d.rem_euclid(kinds::Q)
}
fn kind_rows(what: usize, n: usize) -> Vec<Vec<i64>> {
    (0..n).map(|i| (0..n).map(|j| kind_entry(what, n, i, j)).collect()).collect()
}

/// Every kind of element that generic code can tell apart.
fn kind<Z: Slot, N>(ctx: &mut Ctx)
where
    N: Unsigned + ArrayLen<Vector<kinds::F<Z>, N>> + ArrayLen<kinds::F<Z>>,
    Matrix<kinds::F<Z>, N, N>: Determinant<Output = kinds::F<Z>>,
{
    kinds::reset();
    let n = <N as Unsigned>::to_usize();
    let what = ctx.choose(9);
    let a = kind_rows(what, n);
    // a zero leading minor makes larger ones expensive
    if n > 6 && (1..=n).any(|k| kind_det(&a[..k].iter().map(|r| r[..k].to_vec()).collect::<Vec<_>>()) == 0) {
        return;
    }
    let m = Matrix::<kinds::F<Z>, N, N>::generate(|(i, j)| kinds::F::new(a[i][j]));
    ctx.step();
    ensure_eq!(m.determinant().v(), kind_det(&a), "determinant of {:?} over GF(251)", a);
    ensure!((0..n).all(|i| (0..n).all(|j| m[(i, j)].v() == a[i][j])), "determinant() changed its operand");
    drop(m);
    kinds::settle("end");
}

macro_rules! push_kind_sizes {
    ($S:ident, $v:ident) => {
        push_kind_sizes!(@ $S $v U1 1, U2 2, U3 3, U4 4, U5 5, U6 6, U9 9, U17 17);
    };
    (@ $S:ident $v:ident $($N:ident $n:literal),*) => { $( {
        fn f(ctx: &mut Ctx) {
            kind::<$S, $N>(ctx)
        }
        $v.push((concat!(stringify!($S), ": ", stringify!($N)), f as fn(&mut Ctx)));
    } )* };
}

fn main() {
    let ck = Check::new("C11");
    let mut t: Table = vec![];
    push_len!(U1, 1, t, symbolic);
    push_len!(U2, 2, t, symbolic);
    push_len!(U3, 3, t, symbolic);
    ck.bound("polynomial ring", "sizes 1..=3 with distinct symbols, every zero pattern");
    explore_table(&ck, "polynomial ring", &t);

    macro_rules! all {
        ($p:literal, $N:ident, $n:literal) => {
            ck.range(concat!("all ", $n, "x", $n, " over Z/", $p), count::<$p>($n), finite::<$p, $N>)
        };
    }
    all!(6, U1, 1);
    all!(4, U2, 2);
    all!(6, U2, 2);
    all!(7, U2, 2);
    all!(3, U3, 3);
    all!(4, U3, 3);
    all!(5, U3, 3);
    all!(2, U4, 4);
    all!(3, U4, 4);
    if ck.thorough || !cfg!(debug_assertions) {
        all!(2, U5, 5);
    }
    if ck.thorough {
        all!(7, U3, 3);
        all!(6, U3, 3);
    }
    ck.bound("finite rings", "1x1 over Z/6; 2x2 over Z/4, Z/6, GF(7); 3x3 over GF(3), Z/4, GF(5); 4x4 over GF(2), GF(3); 5x5 over GF(2) (quick: only without debug assertions); thorough: 3x3 over Z/6, GF(7)");

    let r = |n, d| Ratio::new(n, d);
    ck.range("all 3x3 over {-2,-1,0,1/2,3}", 5u64.pow(9), |c, i| rational::<U3>(c, i, &[r(-2, 1), r(-1, 1), r(0, 1), r(1, 2), r(3, 1)]));
    ck.range("all 4x4 over {-1,2}", 1 << 16, |c, i| rational::<U4>(c, i, &[r(-1, 1), r(2, 1)]));
    ck.range("all 4x4 over {0,-1/2}", 1 << 16, |c, i| rational::<U4>(c, i, &[r(0, 1), r(-1, 2)]));
    ck.bound("rationals", "3x3 over {-2,-1,0,1/2,3}; 4x4 over {-1,2} and {0,-1/2}");

    let mut t: Table = vec![];
    for_pos_lens!(push_len, t, patterns);
    ck.bound("zero pivots", "every permutation (= pattern of zero leading minors) x position of a zero on the diagonal x density of the factors up to 5x5; 6x6 every permutation; 7x7..32x32 identity and all adjacent transpositions x every zero");
    explore_table(&ck, "zero pivots", &t);
    let mut t: Table = vec![];
    push_len!(U4, 4, t, monomial);
    push_len!(U5, 5, t, monomial);
    push_len!(U6, 6, t, monomial);
    if ck.thorough {
        push_len!(U7, 7, t, monomial);
        push_len!(U8, 8, t, monomial);
    }
    ck.bound("monomial", "every monomial matrix of sizes 4..=6 (8 in the thorough tier)");
    explore_table(&ck, "monomial", &t);
    let mut t: Table = vec![];
    for_kinds!(push_kind_sizes, t);
    ck.bound("kinds", format!("9 matrices of sizes 1..=6 and those without zero leading minors of sizes 9, 17 with {}", kinds::KINDS));
    explore_table(&ck, "kinds", &t);
    ck.finish();
}
