//! C10: `pow` against the repeated product.
use mc::ring::{Gf, Nc};
use mc::kinds::{self, *};
use mc::shapes::*;
use mc::*;
use num::{One, Zero};
use rowcol::prelude::*;
use rowcol::vector::ArrayLen;
use rowcol::typenum::Unsigned;
use rowcol_mc as mc;
use std::cell::Cell;
use std::fmt::Debug;
use std::ops::{Add, Mul};

thread_local! {
    static FUEL: Cell<u64> = const { Cell::new(0) };
}
/// Z/P, where only so many products may be formed: `pow` may be slow, but the exploration has to end.
#[derive(Clone, Copy, PartialEq, Debug)]
struct Z<const P: u64>(Gf<P>);
impl<const P: u64> Add for Z<P> {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        Z(self.0 + o.0)
    }
}
impl<const P: u64> Mul for Z<P> {
    type Output = Self;
    fn mul(self, o: Self) -> Self {
        FUEL.with(|f| if f.get() == 0 { mc::explore::abstain() } else { f.set(f.get() - 1) });
        Z(self.0 * o.0)
    }
}
impl<const P: u64> Zero for Z<P> {
    fn zero() -> Self {
        Z(Gf::zero())
    }
    fn is_zero(&self) -> bool {
        self.0.is_zero()
    }
}
impl<const P: u64> One for Z<P> {
    fn one() -> Self {
        Z(Gf::one())
    }
}
const BUDGET: u64 = 100_000;

type Rows<T> = Vec<Vec<T>>;
fn times<T: Clone + Zero + Mul<Output = T> + Add<Output = T>>(a: &Rows<T>, b: &Rows<T>) -> Rows<T> {
    let n = a.len();
    (0..n)
        .map(|i| (0..n).map(|j| (0..n).fold(T::zero(), |s, k| s + a[i][k].clone() * b[k][j].clone())).collect())
        .collect()
}
fn unit<T: Clone + Zero + One>(n: usize) -> Rows<T> {
    (0..n).map(|i| (0..n).map(|j| if i == j { T::one() } else { T::zero() }).collect()).collect()
}
fn matrix<T: Clone, N: ArrayLen<Vector<T, N>> + ArrayLen<T>>(r: &Rows<T>) -> Matrix<T, N, N> {
    Matrix::generate(|(i, j)| r[i][j].clone())
}
fn same<T: PartialEq + Debug, N: ArrayLen<Vector<T, N>> + ArrayLen<T>>(m: &Matrix<T, N, N>, w: &Rows<T>) -> bool {
    w.iter().enumerate().all(|(i, r)| r.iter().enumerate().all(|(j, x)| m[(i, j)] == *x))
}

/// Free ring: every zero pattern, exponents 0..=e.
fn free<N>(ctx: &mut Ctx)
where
    N: ArrayLen<Vector<Nc, N>> + ArrayLen<Nc>,
{
    let n = <N as rowcol::typenum::Unsigned>::to_usize();
    let max = [9, 9, 8, 5, 4, 3, 3, 3, 3, 3][n.min(9)];
    let zero: Vec<bool> = if n <= 3 {
        (0..n * n).map(|_| ctx.flip()).collect()
    } else {
        let k = ctx.choose(n * n + 1);
        (0..n * n).map(|i| i + 1 == k).collect()
    };
    let r: Rows<Nc> = (0..n).map(|i| (0..n).map(|j| if zero[i * n + j] { Nc::zero() } else { Nc::var(i * n + j) }).collect()).collect();
    let m = matrix::<Nc, N>(&r);
    let mut w = unit(n);
    for e in 0..=max {
        let p = m.pow(e);
        ctx.step();
        ensure!(same(&p, &w), "{:?} to the power {} is {:?}, expected {:?}", m, e, p, w);
        ensure!(same(&m, &r), "pow changed its operand {:?}", r);
        w = times(&w, &r);
    }
    ctx.outcome(&w);
    log!(ctx, "{}x{} zero pattern {:?}, exponents 0..={}", n, n, zero, max);
}

/// All matrices over Z/P of this size (index `i`); the sequence of powers is eventually periodic, which decides
/// arbitrarily large exponents.
fn finite<const P: u64, N>(ctx: &mut Ctx, i: u64)
where
    N: ArrayLen<Vector<Z<P>, N>> + ArrayLen<Z<P>>,
{
    let n = <N as rowcol::typenum::Unsigned>::to_usize();
    let mut x = i;
    let mut r: Rows<Z<P>> = unit(n);
    for a in 0..n {
        for b in 0..n {
            r[a][b] = Z(Gf(x % P));
            x /= P;
        }
    }
    let m = matrix::<Z<P>, N>(&r);
    FUEL.with(|f| f.set(u64::MAX));
    let mut seq = vec![unit(n)];
    let start = loop {
        let w = times(seq.last().unwrap(), &r);
        if let Some(k) = seq.iter().position(|s| *s == w) {
            break k;
        }
        seq.push(w);
    };
    let period = seq.len() - start;
    let at = |e: usize| if e < seq.len() { &seq[e] } else { &seq[start + (e - start) % period] };
    let mut es: Vec<usize> = (0..=18).collect();
    for s in 5..usize::BITS {
        let b = 1usize << s;
        es.extend([b - 1, b, b + 1, b + b / 3]);
    }
    es.extend([usize::MAX - 1, usize::MAX, 1000, 0x5555_5555_5555_5555]);
    es.sort();
    for e in es {
        FUEL.with(|f| f.set(BUDGET));
        let p = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| m.pow(e))) {
            Ok(p) => p,
            // too slow for this exponent and all the greater ones
            Err(x) if x.is::<mc::explore::Pruned>() => {
                ctx.outcome(("slow", e));
                break;
            }
            Err(x) => std::panic::resume_unwind(x),
        };
        ctx.step();
        ensure!(same(&p, at(e)), "{:?} over Z/{} to the power {} is {:?}, expected {:?}", m, P, e, p, at(e));
    }
    ctx.outcome((start, period));
}

/// Every size: a companion-like matrix over a large field, exponents 0..=9 and some larger ones.
fn sizes<N>(ctx: &mut Ctx)
where
    N: ArrayLen<Vector<mc::ring::Fp, N>> + ArrayLen<mc::ring::Fp>,
{
    let n = <N as rowcol::typenum::Unsigned>::to_usize();
    let kind = ctx.choose(3);
    let r: Rows<mc::ring::Fp> = (0..n)
        .map(|i| {
            (0..n)
                .map(|j| match kind {
                    0 => Gf((i * 31 + j * 17 + i * j + 1) as u64 % 1009),
                    1 => Gf((j == (i + 1) % n) as u64 * (i as u64 + 2)),
                    _ => Gf((j > i) as u64 * (i + j) as u64),
                })
                .collect()
        })
        .collect();
    let m = matrix::<mc::ring::Fp, N>(&r);
    let mut w = unit(n);
    for e in 0..=if n > 9 { 6 } else { 40 } {
        if e <= 9 || e % 7 == 3 {
            ctx.step();
            let p = m.pow(e);
            ensure!(same(&p, &w), "{:?} to the power {} is {:?}, expected {:?}", m, e, p, w);
        }
        w = times(&w, &r);
    }
    log!(ctx, "{}x{} kind {}", n, n, kind);
}

/// Every kind of element that generic code can tell apart.
fn kind_pow<Z: Slot, N: ArrayLen<kinds::F<Z>> + ArrayLen<Vector<kinds::F<Z>, N>>>(ctx: &mut Ctx) {
    kinds::reset();
    let n = <N as Unsigned>::to_usize();
    let l = ctx.choose(2);
    let m = Matrix::<kinds::F<Z>, N, N>::generate(|(i, j)| kinds::F::new(value(l, i * n + j)));
    let mut w: Vec<Vec<i64>> = (0..n).map(|i| (0..n).map(|j| (i == j) as i64).collect()).collect();
    for e in 0..=if n > 8 { 4 } else { 12 } {
        ctx.step();
        let p = m.pow(e);
        for i in 0..n {
            for j in 0..n {
                ensure_eq!(p[(i, j)].v(), w[i][j], "entry {:?} of a {}x{} matrix to the power {}", (i, j), n, n, e);
            }
        }
        w = (0..n).map(|i| (0..n).map(|j| (0..n).map(|x| w[i][x] * value(l, x * n + j)).sum::<i64>() % kinds::Q).collect()).collect();
    }
    drop(m);
    kinds::settle("end");
}

fn main() {
    let ck = Check::new("C10");
    let mut t: Table = vec![];
    for_small_lens!(push_len, t, free);
    ck.bound("free ring", "sizes 0..=6, every zero pattern up to 3x3 (one zero above), exponents 0..=9 (1x1) .. 0..=3 (6x6)");
    explore_table(&ck, "free ring", &t);
    let mut t: Table = vec![];
    for_all_squares!(push_len, t, sizes);
    ck.bound("sizes", "every size 0..=32, dense, cyclic and nilpotent, exponents up to 6 (40 for sizes up to 9)");
    explore_table(&ck, "sizes", &t);
    ck.bound("finite rings", "all 1x1 over Z/6, all 2x2 over GF(2), GF(3), Z/4, GF(5), all 3x3 over GF(2); 260 exponents up to usize::MAX (as far as 100000 products of entries suffice)");
    ck.range("1x1 over Z/6", 6, finite::<6, U1>);
    ck.range("2x2 over GF(2)", 16, finite::<2, U2>);
    ck.range("2x2 over GF(3)", 81, finite::<3, U2>);
    ck.range("2x2 over Z/4", 256, finite::<4, U2>);
    ck.range("2x2 over GF(5)", 625, finite::<5, U2>);
    ck.range("3x3 over GF(2)", 512, finite::<2, U3>);
    if ck.thorough {
        ck.range("2x2 over Z/6", 1296, finite::<6, U2>);
        ck.range("3x3 over GF(3)", 19683, finite::<3, U3>);
        ck.range("4x4 over GF(2)", 65536, finite::<2, U4>);
    }
    let mut t: Table = vec![];
    for_kinds!(push_kind_lens, t, kind_pow);
    ck.bound("kinds", format!("{} of sizes {}, exponents 0..=12 (4 for sizes above 8)", kinds::KINDS, kinds::LENS));
    explore_table(&ck, "kinds", &t);
    ck.finish();
}
