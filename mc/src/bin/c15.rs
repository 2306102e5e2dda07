//! C15: extrema under every weak order, clamping for every pair of bounds.
use mc::kinds::{self, *};
use mc::shapes::*;
use mc::*;
use rowcol::prelude::*;
use rowcol::typenum::Unsigned;
use rowcol::vector::ArrayLen;
use rowcol_mc as mc;
use std::cmp::Ordering;

/// Ordered by `key` only; `id` tells entries apart.
#[derive(Clone, Debug)]
struct E {
    key: i32,
    id: usize,
}
impl PartialEq for E {
    fn eq(&self, o: &E) -> bool {
        self.key == o.key
    }
}
impl Eq for E {}
impl PartialOrd for E {
    fn partial_cmp(&self, o: &E) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for E {
    fn cmp(&self, o: &E) -> Ordering {
        self.key.cmp(&o.key)
    }
}

/// Keys of `n` entries: all assignments of `n` ranks for few entries; above, every pair of positions for the largest
/// and the smallest (or two equal extremes) over a constant, rising or falling background.
fn keys(ctx: &mut Ctx, n: usize, full: usize) -> Vec<i32> {
    if n <= full {
        return (0..n).map(|_| ctx.choose(n.max(1)) as i32).collect();
    }
    let large = n > 81;
    let background = if large { 0 } else { ctx.choose(4) };
    let mut k: Vec<i32> = (0..n as i32)
        .map(|i| match background {
            0 => 50,
            1 => 10 + i,
            2 => 10 + n as i32 - i,
            _ => 10 + (i * 7) % 13,
        })
        .collect();
    let kind = if large { ctx.choose(2) } else { ctx.choose(4) };
    let p = ctx.choose(n);
    let q = ctx.choose(n);
    match kind {
        0 => {
            k[p] = 5000;
            k[q] = 1;
        }
        1 => {
            k[p] = 5000;
            k[q] = 5000;
        }
        2 => {
            k[p] = 1;
            k[q] = 1;
        }
        _ => {
            k[p] = i32::MAX;
            k[q] = i32::MIN;
        }
    }
    k
}

fn judge(what: &str, got: &E, k: &[i32], rank: &dyn Fn(i32) -> i64, max: bool) {
    ensure!(got.id < k.len() && k[got.id] == got.key, "{} of keys {:?} is {:?}, which is not an entry", what, k, got);
    let better = k.iter().position(|x| if max { rank(*x) > rank(got.key) } else { rank(*x) < rank(got.key) });
    ensure!(better.is_none(), "{} of keys {:?} is {}, but entry {:?} is {}", what, k, got.key, better, if max { "greater" } else { "less" });
}

macro_rules! extrema {
    ($ctx:ident, $x:ident, $k:ident) => {{
        judge("max()", &$x.max(), &$k, &|a| a as i64, true);
        judge("min()", &$x.min(), &$k, &|a| a as i64, false);
        // natural order, its reverse, and two coarser preorders
        let ranks: [&dyn Fn(i32) -> i64; 4] = [&|a| a as i64, &|a| -(a as i64), &|a| (a as i64 - 2).abs(), &|a| (a as i64).rem_euclid(3)];
        for (i, r) in ranks.iter().enumerate() {
            let ask = |a: &E, b: &E| {
                ensure!(
                    a.id < $k.len() && b.id < $k.len() && a.key == $k[a.id] && b.key == $k[b.id],
                    "the comparison is given {:?} and {:?}, which are not entries of {:?}", a, b, $k
                );
                r(a.key).cmp(&r(b.key))
            };
            judge(&format!("max_by (comparison {})", i), &$x.max_by(ask), &$k, r, true);
            judge(&format!("min_by (comparison {})", i), &$x.min_by(ask), &$k, r, false);
            $ctx.step();
        }
        for i in 0..$k.len() {
            ensure!($x.iter_keys(i) == $k[i], "entry {} changed while searching an extremum", i);
        }
        $ctx.outcome(($x.max().id, $x.min().id));
    }};
}
trait Keys {
    fn iter_keys(&self, i: usize) -> i32;
}
impl<N: ArrayLen<E>> Keys for Vector<E, N> {
    fn iter_keys(&self, i: usize) -> i32 {
        self.as_slice()[i].key
    }
}
impl<R: ArrayLen<Vector<E, C>>, C: ArrayLen<E>> Keys for Matrix<E, R, C> {
    fn iter_keys(&self, i: usize) -> i32 {
        let c = <C as Unsigned>::to_usize();
        self[(i / c, i % c)].key
    }
}

/// The extrema are methods of concrete sizes (`UInt<_, _>`), so these drivers are generated per size.
macro_rules! vec_driver {
    ($N:ident, $n:expr, $t:ident, $full:expr) => {{
        fn f(ctx: &mut Ctx) {
            let k = keys(ctx, $n, $full);
            let v = Vector::<E, $N>::generate(|i| E { key: k[i], id: i });
            extrema!(ctx, v, k);
            log!(ctx, "vector of {:?}: max {:?}, min {:?}", k, v.max(), v.min());
        }
        $t.push((stringify!($N), f as fn(&mut Ctx)));
    }};
}
macro_rules! mat_driver {
    ($N:ident, $n:expr, $t:ident, $full:expr) => {{
        fn f(ctx: &mut Ctx) {
            let k = keys(ctx, $n * $n, $full);
            let m = Matrix::<E, $N, $N>::generate(|(i, j)| E { key: k[i * $n + j], id: i * $n + j });
            extrema!(ctx, m, k);
            log!(ctx, "{}x{} matrix of {:?}: max {:?}, min {:?}", $n, $n, k, m.max(), m.min());
        }
        $t.push((concat!(stringify!($N), "x", stringify!($N)), f as fn(&mut Ctx)));
    }};
}

/// Three ranks for every entry of a 3x3 matrix.
fn three(ctx: &mut Ctx, i: u64) {
    let k: Vec<i32> = (0..9).map(|p| (i / 3u64.pow(p) % 3) as i32).collect();
    let m = Matrix::<E, U3, U3>::generate(|(i, j)| E { key: k[i * 3 + j], id: i * 3 + j });
    extrema!(ctx, m, k);
}

const TOP: i32 = 4;
/// Values 0..=4 for every entry of small containers, one position at a time for larger ones; every pair of bounds.
fn clamp_keys(ctx: &mut Ctx, n: usize) -> (Vec<i32>, i32, i32) {
    let (lo, hi) = if n <= 81 {
        let hi = ctx.choose(TOP as usize + 1) as i32;
        (ctx.choose(hi as usize + 1) as i32, hi)
    } else {
        *ctx.pick(&[(1, 3), (2, 2), (0, 1)])
    };
    let k = if n <= 4 {
        (0..n).map(|_| ctx.choose(TOP as usize + 1) as i32).collect()
    } else {
        let p = ctx.choose(n);
        let v = ctx.choose(TOP as usize + 1) as i32;
        let base = if n <= 81 { ctx.choose(3) as i32 * 2 } else { 2 };
        (0..n).map(|i| if i == p { v } else { base }).collect()
    };
    (k, lo, hi)
}
fn clamped(k: i32, lo: i32, hi: i32) -> i32 {
    if k < lo {
        lo
    } else if k > hi {
        hi
    } else {
        k
    }
}
fn clamp_vector<N>(ctx: &mut Ctx)
where
    N: Unsigned + ArrayLen<E>,
{
    let n = <N as Unsigned>::to_usize();
    let (k, lo, hi) = clamp_keys(ctx, n);
    let mut v = Vector::<E, N>::generate(|i| E { key: k[i], id: i });
    let e = |key| E { key, id: n };
    let c = v.clamped(e(lo), e(hi));
    for i in 0..n {
        ensure_eq!(c[i].key, clamped(k[i], lo, hi), "element {} of {:?} clamped to [{}, {}]", i, k, lo, hi);
        ensure_eq!(v[i].key, k[i], "element {} after clamped()", i);
    }
    v.clamp(e(lo), e(hi));
    for i in 0..n {
        ensure_eq!(v[i].key, clamped(k[i], lo, hi), "element {} of {:?} after clamp({}, {})", i, k, lo, hi);
    }
    ctx.step();
    ctx.outcome((n, lo, hi, k.first().cloned()));
    log!(ctx, "clamp {:?} to [{}, {}]", k, lo, hi);
}
fn clamp_matrix<R, C>(ctx: &mut Ctx)
where
    R: Unsigned + ArrayLen<Vector<E, C>>,
    C: Unsigned + ArrayLen<E>,
{
    let (r, c) = (<R as Unsigned>::to_usize(), <C as Unsigned>::to_usize());
    let n = r * c;
    let (k, lo, hi) = clamp_keys(ctx, n);
    let mut m = Matrix::<E, R, C>::generate(|(i, j)| E { key: k[i * c + j], id: i * c + j });
    let e = |key| E { key, id: n };
    let d = m.clamped(e(lo), e(hi));
    for i in 0..r {
        for j in 0..c {
            ensure_eq!(d[(i, j)].key, clamped(k[i * c + j], lo, hi), "entry {:?} of {:?} clamped to [{}, {}]", (i, j), k, lo, hi);
            ensure_eq!(m[(i, j)].key, k[i * c + j], "entry {:?} after clamped()", (i, j));
        }
    }
    m.clamp(e(lo), e(hi));
    for i in 0..r {
        for j in 0..c {
            ensure_eq!(m[(i, j)].key, clamped(k[i * c + j], lo, hi), "entry {:?} of {:?} after clamp({}, {})", (i, j), k, lo, hi);
        }
    }
    ctx.step();
    ctx.outcome((r, c, lo, hi, k.first().cloned()));
    log!(ctx, "clamp {}x{} {:?} to [{}, {}]", r, c, k, lo, hi);
}

/// Every kind of element that generic code can tell apart: where the extremes are, and three pairs of bounds.
macro_rules! push_kind_sizes {
    ($S:ident, $v:ident) => {
        push_kind_sizes!(@ $S $v U1 1, U2 2, U3 3, U4 4, U5 5, U8 8, U9 9, U16 16, U17 17, U32 32);
        push_kind_sizes!(# $S $v U1 1, U2 2, U3 3, U4 4, U5 5);
    };
    (@ $S:ident $v:ident $($N:ident $n:literal),*) => { $( {
        fn f(ctx: &mut Ctx) {
            kind_bodies!(ctx, $n, |k: &[i64]| Vector::<kinds::F<$S>, $N>::generate(|i| kinds::F::new(k[i])), |v: &Vector<kinds::F<$S>, $N>| v.iter().map(|x| x.v()).collect::<Vec<_>>());
        }
        $v.push((concat!(stringify!($S), "^", stringify!($n)), f as fn(&mut Ctx)));
    } )* };
    (# $S:ident $v:ident $($N:ident $n:literal),*) => { $( {
        fn f(ctx: &mut Ctx) {
            kind_bodies!(ctx, $n * $n, |k: &[i64]| Matrix::<kinds::F<$S>, $N, $N>::generate(|(i, j)| kinds::F::new(k[i * $n + j])),
                |m: &Matrix<kinds::F<$S>, $N, $N>| m.rows_iter_ref().flat_map(|r| r.iter()).map(|x| x.v()).collect::<Vec<_>>());
        }
        $v.push((concat!(stringify!($S), "^", stringify!($n), "x", stringify!($n)), f as fn(&mut Ctx)));
    } )* };
}
macro_rules! kind_bodies {
    ($ctx:ident, $n:expr, $mk:expr, $raw:expr) => {{
        kinds::reset();
        let n: usize = $n;
        let (p, q) = ($ctx.choose(n), $ctx.choose(n));
        let mut k: Vec<i64> = (0..n).map(|i| 50 + i as i64 * 7 % 13).collect();
        k[p] = 249;
        k[q] = 2;
        let x = ($mk)(&k);
        let (hi, lo) = (*k.iter().max().unwrap(), *k.iter().min().unwrap());
        $ctx.step();
        ensure_eq!(x.max().v(), hi, "max() of {:?}", k);
        ensure_eq!(x.min().v(), lo, "min() of {:?}", k);
        ensure_eq!(x.max_by(|a, b| b.v().cmp(&a.v())).v(), lo, "max_by (reverse) of {:?}", k);
        ensure_eq!(x.min_by(|a, b| b.v().cmp(&a.v())).v(), hi, "min_by (reverse) of {:?}", k);
        for (a, b) in [(0, 40), (51, 57), (60, 60)] {
            let w: Vec<i64> = k.iter().map(|x| clamped(*x as i32, a, b) as i64).collect();
            let c = x.clamped(kinds::F::new(a as i64), kinds::F::new(b as i64));
            ensure_eq!(($raw)(&c), w, "{:?} clamped to [{}, {}]", k, a, b);
            let mut y = ($mk)(&k);
            y.clamp(kinds::F::new(a as i64), kinds::F::new(b as i64));
            ensure_eq!(($raw)(&y), w, "{:?} after clamp({}, {})", k, a, b);
        }
        ensure_eq!(($raw)(&x), k, "entries afterwards");
        drop(x);
        kinds::settle("end");
    }};
}

fn main() {
    let ck = Check::new("C15");
    let mut t: Table = vec![];
    for_pos_lens!(vec_driver, t, 6);
    ck.bound("extrema of vectors", "every assignment of n ranks up to length 6; lengths 7..=32 every pair of positions for two extremes over four backgrounds; natural order and four comparisons");
    explore_table(&ck, "extrema of vectors", &t);
    if ck.thorough {
        let mut t: Table = vec![];
        vec_driver!(U7, 7, t, 7);
        ck.bound("extrema of length 7", "every assignment of 7 ranks");
        explore_table(&ck, "extrema of length 7", &t);
    }
    let mut t: Table = vec![];
    for_squares!(mat_driver, t, 4);
    ck.bound("extrema of matrices", "sizes 1x1..9x9, 16x16, 17x17: every assignment of ranks up to 2x2, every pair of positions above (constant background beyond 81 entries); all 3x3 with three ranks");
    explore_table(&ck, "extrema of matrices", &t);
    ck.range("extrema of all 3x3 with three ranks", 3u64.pow(9), three);
    let mut t: Table = vec![];
    for_lens!(push_len, t, clamp_vector);
    ck.bound("clamp", "every pair of bounds of 5 values; every assignment of 5 values up to 4 entries, every value at every position above (three pairs of bounds beyond 81 entries); vectors of length 0..=32, shapes 0x0..9x9 and selected ones up to 32x32");
    explore_table(&ck, "clamp vectors", &t);
    let mut t: Table = vec![];
    for_mid_shapes!(push_shape, t, clamp_matrix);
    explore_table(&ck, "clamp matrices", &t);
    let mut t: Table = vec![];
    for_large_shapes!(push_shape, t, clamp_matrix);
    explore_table(&ck, "clamp large matrices", &t);
    let mut t: Table = vec![];
    for_kinds!(push_kind_sizes, t);
    ck.bound("kinds", format!("every position of the extremes and three pairs of bounds for {}, lengths 1..=5, 8, 9, 16, 17, 32 and sizes 1..=5", kinds::KINDS));
    explore_table(&ck, "kinds", &t);
    ck.finish();
}
