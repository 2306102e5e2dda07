//! C19: the Euclidean norm and normalisation, symbolically and on an exactly representable grid.
use mc::ring::Poly;
use mc::shapes::*;
use mc::sym::{self, Expr, Sym};
use mc::*;
use num::Float;
use rowcol::prelude::*;
use rowcol::typenum::Unsigned;
use rowcol::vector::ArrayLen;
use rowcol_mc as mc;
use std::fmt::Debug;

/// The entries are variables (some fixed to small integers): the result is decided for all reals.
fn symbolic<N: Unsigned + ArrayLen<Sym>>(ctx: &mut Ctx) {
    let n = <N as Unsigned>::to_usize();
    sym::reset();
    // which entries are variables: all; or all but one (0, 1, -2); or a single one
    let mode = ctx.choose(5);
    let at = if mode == 0 || n == 0 { 0 } else { ctx.choose(n) };
    let entry = |i: usize| match mode {
        0 => Poly::var(i),
        1 | 2 | 3 if i == at => Poly::int([0, 1, -2][mode - 1]),
        4 if i != at => Poly::int(0),
        _ => Poly::var(i),
    };
    let v = Vector::<Sym, N>::generate(|i| Sym::poly(entry(i)));
    let sq = (0..n).fold(Poly::int(0), |s, i| s + entry(i) * entry(i));
    let got = v.norm().get();
    ctx.step();
    let want = match sq.constant() {
        Some(0) => Expr::Poly(Poly::int(0)),
        Some(1) => Expr::Poly(Poly::int(1)),
        Some(4) => match got {
            Expr::Poly(_) => Expr::Poly(Poly::int(2)),
            _ => Expr::Root(sq.clone()),
        },
        _ => Expr::Root(sq.clone()),
    };
    ensure_eq!(got, want, "norm of length {} (mode {}, position {})", n, mode, at);
    if sq.constant() != Some(0) {
        let u = v.normalized();
        ctx.step();
        for i in 0..n {
            let e = u[i].get();
            let x = entry(i);
            let ok = match &e {
                Expr::Over(p, q) => *p == x && *q == sq,
                Expr::Poly(p) => (sq.constant() == Some(1) || x == Poly::int(0)) && *p == x,
                _ => false,
            };
            ensure!(ok, "entry {} of the normalised vector of length {} is {:?} instead of {:?}/sqrt({:?}) (mode {}, position {})", i, n, u[i], x, sq, mode, at);
        }
    }
    for i in 0..n {
        ensure!(v[i].get() == Expr::Poly(entry(i)), "entry {} of the operand of length {} changed to {:?}", i, n, v[i]);
    }
    ctx.state((n, mode, at));
    ctx.outcome((n, mode, at));
    log!(ctx, "length {} mode {} at {}: norm {:?}", n, mode, at, got);
}

trait Fl: Float + Debug + 'static {
    const TOL: f64;
    const NAME: &'static str;
    fn of(v: f64) -> Self;
    fn f(self) -> f64;
}
impl Fl for f32 {
    const TOL: f64 = 1e-5;
    const NAME: &'static str = "f32";
    fn of(v: f64) -> f32 {
        v as f32
    }
    fn f(self) -> f64 {
        self as f64
    }
}
impl Fl for f64 {
    const TOL: f64 = 1e-12;
    const NAME: &'static str = "f64";
    fn of(v: f64) -> f64 {
        v
    }
    fn f(self) -> f64 {
        self
    }
}
fn near(got: f64, want: f64, tol: f64) -> bool {
    (got - want).abs() <= tol * want.abs() && (want != 0.0 || got == 0.0)
}

fn check<T: Fl, N: Unsigned + ArrayLen<T>>(ctx: &mut Ctx, xs: &[f64]) {
    let n = xs.len();
    let v = Vector::<T, N>::generate(|i| T::of(xs[i]));
    let want = xs.iter().map(|x| x * x).sum::<f64>().sqrt();
    let got = v.norm().f();
    ctx.step();
    ensure!(near(got, want, T::TOL), "norm of {:?} ({}) is {}, expected {}", xs, T::NAME, got, want);
    if want != 0.0 {
        let u = v.normalized();
        ctx.step();
        for i in 0..n {
            ensure!(near(u[i].f(), xs[i] / want, T::TOL), "entry {} of {:?} ({}) normalised is {:?}, expected {}", i, xs, T::NAME, u[i], xs[i] / want);
        }
    }
    for i in 0..n {
        ensure!(v[i].f() == xs[i], "entry {} of the operand {:?} ({}) changed to {:?}", i, xs, T::NAME, v[i]);
    }
    ctx.state((T::NAME, n, xs.iter().map(|x| x.to_bits()).collect::<Vec<_>>()));
    ctx.outcome((n, want.to_bits()));
    log!(ctx, "{} {:?}: {}", T::NAME, xs, got);
}

const GRID: [f64; 8] = [0.0, 1.0, -3.0, 4.0, -0.5, 1000.0, -0.0, 3.0];
/// Every vector over the grid.
fn grid<T: Fl, N: Unsigned + ArrayLen<T>>(ctx: &mut Ctx) {
    let xs: Vec<f64> = (0..<N as Unsigned>::to_usize()).map(|_| *ctx.pick(&GRID)).collect();
    check::<T, N>(ctx, &xs);
}
/// Every sign pattern, zero included, of distinct magnitudes.
fn signs<T: Fl, N: Unsigned + ArrayLen<T>>(ctx: &mut Ctx) {
    let xs: Vec<f64> = (0..<N as Unsigned>::to_usize()).map(|i| (ctx.choose(3) as f64 - 1.0) * (i + 1) as f64).collect();
    check::<T, N>(ctx, &xs);
}
/// At most two entries that differ from a common background, everywhere.
fn spots<T: Fl, N: Unsigned + ArrayLen<T>>(ctx: &mut Ctx) {
    let n = <N as Unsigned>::to_usize();
    let base = *ctx.pick(&[0.0, 1.0, -2.0]);
    let mut xs = vec![base; n];
    let k = ctx.choose(3).min(n);
    let big = (1u64 << 30) as f64;
    for _ in 0..k {
        let i = ctx.choose(n);
        xs[i] = *ctx.pick(&[-3.0, 4.0, 0.0, 0.25, -64.0, big, 1.0 / big]);
    }
    check::<T, N>(ctx, &xs);
}
/// A few vectors (one of whose entries may be enlarged) at every power of two at which no square under- or overflows.
fn scales<T: Fl, N: Unsigned + ArrayLen<T>>(ctx: &mut Ctx) {
    let n = <N as Unsigned>::to_usize();
    let reach = if T::TOL > 1e-9 { 55 } else { 480 };
    let k = ctx.choose(2 * reach + 1) as i32 - reach as i32;
    let shape = ctx.choose(4);
    let scale = 2f64.powi(k);
    let at = if shape == 3 { ctx.choose(n) } else { 0 };
    let xs: Vec<f64> = (0..n)
        .map(|i| match shape {
            0 => [3.0, -4.0, 0.0, 12.0][i % 4] * scale,
            1 => -(1.0 + i as f64) * scale,
            2 => if i == 0 { -scale } else { 0.0 },
            // the entry is out of proportion
            _ => if i == at { -3.0 * scale } else { 2.0 },
        })
        .collect();
    check::<T, N>(ctx, &xs);
}
/// Norms that miss a round number by a power of two, from just visible to one half.
fn close<T: Fl, N: Unsigned + ArrayLen<T>>(ctx: &mut Ctx) {
    let n = <N as Unsigned>::to_usize();
    let bits = if T::TOL > 1e-9 { 16 } else { 39 };
    let k = 1 + ctx.choose(bits) as i32;
    let off = 1.0 + if ctx.flip() { 2f64.powi(-k) } else { -2f64.powi(-k) };
    let base = *ctx.pick(&[1.0, -1.0, 0.5, 2.0, 3.0, 1000.0]);
    let shape = ctx.choose(3);
    let at = ctx.choose(n);
    // what the element type can represent
    let xs: Vec<f64> = (0..n)
        .map(|i| match shape {
            // one entry
            0 => if i == at { base * off } else { 0.0 },
            // the same at every position, and one off
            1 => if i == at { base * off } else { base },
            // 3-4-5
            _ => if i == at { 0.6 * base * off } else if i == (at + 1) % n { 0.8 * base * off } else { 0.0 },
        })
        .map(|x| T::of(x).f())
        .collect();
    check::<T, N>(ctx, &xs);
}
/// Infinite entries and entries that are not a number count like any other.
fn specials<T: Fl, N: Unsigned + ArrayLen<T>>(ctx: &mut Ctx) {
    let n = <N as Unsigned>::to_usize();
    let xs: Vec<f64> = (0..n).map(|_| *ctx.pick(&[1.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, -0.0])).collect();
    let v = Vector::<T, N>::generate(|i| T::of(xs[i]));
    let want = xs.iter().map(|x| x * x).sum::<f64>().sqrt();
    let got = v.norm().f();
    ctx.step();
    let same = |a: f64, b: f64| a == b || a.is_nan() && b.is_nan() || near(a, b, T::TOL);
    // infinite and not a number at once: either answer has its school
    let mixed = xs.iter().any(|x| x.is_infinite()) && xs.iter().any(|x| x.is_nan());
    ensure!(same(got, want) || mixed && got == f64::INFINITY, "norm of {:?} ({}) is {}, expected {}", xs, T::NAME, got, want);
    // an implementation that divides by the largest entry first may differ here
    if want != 0.0 && !want.is_infinite() && !mixed {
        let u = v.normalized();
        ctx.step();
        for i in 0..n {
            ensure!(same(u[i].f(), xs[i] / want), "entry {} of {:?} ({}) normalised is {:?}, expected {}", i, xs, T::NAME, u[i], xs[i] / want);
        }
    }
    ctx.outcome((n, want.to_bits()));
    log!(ctx, "{} {:?}: {}", T::NAME, xs, got);
}

fn main() {
    let ck = Check::new("C19");
    let mut t: Table = vec![];
    for_lens!(push_len, t, symbolic);
    ck.bound("symbolic", "every length 0..=32; entries are variables, or all but one, or exactly one; every position");
    explore_table(&ck, "symbolic", &t);
    macro_rules! at {
        ($f:ident; $($N:ident),*) => { vec![$( (concat!("f32^", stringify!($N)), $f::<f32, $N> as fn(&mut Ctx)), (concat!("f64^", stringify!($N)), $f::<f64, $N> as fn(&mut Ctx)) ),*] };
    }
    let t: Table = if ck.thorough { at!(grid; U0, U1, U2, U3, U4, U5, U6) } else { at!(grid; U0, U1, U2, U3, U4) };
    ck.bound("grid", format!("every vector over {:?} up to length {}, f32 and f64", GRID, ck.by_tier(4, 4, 6)));
    explore_table(&ck, "grid", &t);
    let t: Table = if ck.thorough { at!(signs; U5, U6, U7, U8, U9, U10, U11, U12) } else { at!(signs; U5, U6, U7, U8) };
    ck.bound("signs", format!("every pattern of signs and zeros of distinct magnitudes, lengths 5..={}", ck.by_tier(8, 8, 12)));
    explore_table(&ck, "signs", &t);
    let mut t: Table = vec![];
    for_lens!(push_len_of, t, spots, f32);
    for_lens!(push_len_of, t, spots, f64);
    ck.bound("spots", "every length 0..=32, three backgrounds, at most two other entries of seven values at every pair of positions");
    explore_table(&ck, "spots", &t);
    let t: Table = at!(scales; U1, U2, U3, U4, U5, U8, U32);
    ck.bound("scales", "seven lengths, f32 and f64, four shapes, every power of two from 2^-55 to 2^55 (f32) or 2^-480 to 2^480 (f64)");
    explore_table(&ck, "scales", &t);
    let t: Table = at!(close; U1, U2, U3, U4, U7, U8, U32);
    ck.bound("close", "seven lengths, f32 and f64, norms off six round numbers by 1/2 down to 2^-16 (f32) or 2^-39 (f64), three shapes at every position");
    explore_table(&ck, "close", &t);
    let t: Table = at!(specials; U1, U2, U3, U4);
    ck.bound("specials", "every vector of 1, infinities, NaN and -0 up to length 4, f32 and f64");
    explore_table(&ck, "specials", &t);
    ck.finish();
}
