//! The operations of the library on every kind of element (`kinds`), for the checks of ownership: with and without panics.
use crate::kinds::{value, Slot, F};
use crate::tok::tick;
use num::{Bounded, Complex, One, Zero};
use rowcol::matrix::Matrix;
use rowcol::prelude::{Cofactor, Determinant, Inverse};
use rowcol::typenum::consts::*;
use rowcol::vector::{ArrayLen, Vector};
use std::fmt::Write;

/// Runs operations, some of which may be made to panic.
pub trait Runner {
    fn op<T>(&self, name: &str, f: impl FnOnce() -> T) -> Option<T>;
}

fn t<Z: Slot>(i: usize) -> F<Z> {
    F::new(1 + value(5, i) % 250)
}
fn vec<Z: Slot, N: ArrayLen<F<Z>>>() -> Vector<F<Z>, N> {
    Vector::generate(t)
}
fn mat<Z: Slot, R, C>() -> Matrix<F<Z>, R, C>
where
    R: ArrayLen<Vector<F<Z>, C>>,
    C: ArrayLen<F<Z>>,
{
    Matrix::generate(|(i, j)| t(i * 7 + j))
}
/// Survivors are valid and usable.
fn use_vec<Z: Slot, N: ArrayLen<F<Z>>>(v: &mut Vector<F<Z>, N>) {
    for x in v.iter_mut() {
        x.v();
        *x = t(9);
    }
}
fn use_mat<Z: Slot, R, C>(m: &mut Matrix<F<Z>, R, C>)
where
    R: ArrayLen<Vector<F<Z>, C>>,
    C: ArrayLen<F<Z>>,
{
    for i in 0..R::to_usize() {
        for j in 0..C::to_usize() {
            m[(i, j)].v();
            m[(i, j)] = t(9);
        }
    }
}
fn through<T>(x: T) -> T {
    tick();
    x
}

pub const VECTOR: usize = 30;
pub fn vector<Z: Slot, N: ArrayLen<F<Z>>, G: Runner>(g: &G, op: usize) {
    let n = N::to_usize();
    let mut v = vec::<Z, N>();
    let mut w = vec::<Z, N>();
    macro_rules! left {
        ($it:expr) => {{
            let it = $it;
            let k = it.len();
            crate::ensure_eq!(it.map(|x| x.v()).count(), k, "elements left in an iterator");
        }};
    }
    match op {
        0 => drop(g.op("generate", || Vector::<F<Z>, N>::generate(|i| through(t(i))))),
        1 => drop(g.op("map and collect", || v.into_iter().map(|x| { tick(); drop(x); t(1) }).collect::<Vector<F<Z>, N>>())),
        2 => drop(g.op("collect with moved elements", || v.into_iter().inspect(|_| tick()).collect::<Vector<F<Z>, N>>())),
        3 => drop(g.op("rev and collect", || v.into_iter().rev().map(through).collect::<Vector<F<Z>, N>>())),
        4 => drop(g.op("collect of too few", || { if n > 0 { v.into_iter().skip(1).map(through).collect::<Vec<_>>() } else { vec![] } })),
        5 => drop(g.op("clone", || v.clone())),
        6 => drop(g.op("clone_from", || v.clone_from(&w))),
        7 => drop(g.op("default", || Vector::<F<Z>, N>::default())),
        8 => drop(g.op("zero", || Vector::<F<Z>, N>::zero().is_zero())),
        9 => drop(g.op("extremes", || (Vector::<F<Z>, N>::min_value(), Vector::<F<Z>, N>::max_value()))),
        10 => drop(g.op("v + w", || v + w)),
        11 => drop(g.op("v - &w", || v - &w)),
        12 => drop(g.op("&v + w", || &v + w)),
        13 => drop(g.op("&v - &w", || &v - &w)),
        14 => {
            g.op("v += w", || v += w);
            use_vec(&mut v);
        }
        15 => {
            g.op("v -= w", || v -= w);
            use_vec(&mut v);
        }
        16 => drop(g.op("v * t", || v * t(3))),
        17 => {
            g.op("v *= t", || v *= t(3));
            use_vec(&mut v);
        }
        18 => drop(g.op("v / t", || v / t(3))),
        19 => {
            g.op("v /= t", || v /= t(3));
            use_vec(&mut v);
        }
        20 => drop(g.op("-v", || -v)),
        21 => {
            g.op("dot", || v.dot(&w));
            use_vec(&mut w);
        }
        22 => drop(g.op("sum", || v.sum())),
        23 => drop(g.op("clamped", || v.clamped(t(1), t(2)))),
        24 => {
            g.op("clamp", || v.clamp(F::new(30), F::new(200)));
            use_vec(&mut v);
        }
        25 => drop(g.op("== and !=", || (v == w, v != w))),
        26 => {
            let mut it = v.into_iter();
            g.op("take a part", || it.by_ref().take(n / 2 + 1).for_each(|x| drop(through(x))));
            left!(it);
        }
        27 => {
            let mut it = v.into_iter();
            g.op("nth and nth_back", || {
                let a = it.nth(n / 3);
                let b = it.nth_back(n / 3);
                (a, b)
            });
            left!(it);
        }
        28 => drop(g.op("drop of a partly consumed iterator", || {
            let mut it = v.into_iter();
            let a = it.next_back();
            let b = it.next();
            drop(it);
            (a, b)
        })),
        _ => {
            g.op("count, last, drop", || {
                let k = v.clone().into_iter().count();
                let l = w.into_iter().last();
                drop(v);
                (k, l)
            });
        }
    }
}

pub const MATRIX: usize = 26;
pub fn matrix<Z: Slot, R, C, G: Runner>(g: &G, op: usize)
where
    R: ArrayLen<Vector<F<Z>, C>> + ArrayLen<F<Z>> + ArrayLen<Vector<Complex<F<Z>>, C>> + ArrayLen<Vector<F<Z>, R>>,
    C: ArrayLen<F<Z>> + ArrayLen<Vector<F<Z>, R>> + ArrayLen<Complex<F<Z>>>,
{
    let mut m = mat::<Z, R, C>();
    let w = mat::<Z, R, C>();
    let u = mat::<Z, C, R>();
    let v = vec::<Z, C>();
    match op {
        0 => drop(g.op("generate", || Matrix::<F<Z>, R, C>::generate(|(i, j)| through(t(i + j))))),
        1 => drop(g.op("map", || m.map(|_, x| { tick(); drop(x); t::<Z>(2) }))),
        2 => drop(g.op("map to itself", || m.map(|_, x| through(x)))),
        3 => drop(g.op("map to pairs", || m.map(|(i, j), x| { tick(); Complex::new(x, t(i + j)) }))),
        4 => {
            g.op("all and any", || (m.all(|_, x| through(x.v() >= 0)), m.any(|_, x| through(x.v() < 0))));
            use_mat(&mut m);
        }
        5 => drop(g.op("transposed", || m.transposed())),
        6 => drop(g.op("clone", || m.clone())),
        7 => {
            g.op("clone_from", || m.clone_from(&w));
            use_mat(&mut m);
        }
        8 => drop(g.op("default and zero", || (Matrix::<F<Z>, R, C>::default(), Matrix::<F<Z>, R, C>::zero().is_zero()))),
        9 => drop(g.op("m + w", || m + w)),
        10 => drop(g.op("m - &w", || m - &w)),
        11 => drop(g.op("&m + w", || &m + w)),
        12 => {
            g.op("m += w", || m += w);
            use_mat(&mut m);
        }
        13 => drop(g.op("-m", || -m)),
        14 => drop(g.op("m * t", || m * t(3))),
        15 => {
            g.op("m *= t", || m *= t(3));
            use_mat(&mut m);
        }
        16 => drop(g.op("m / &t", || m / &t(3))),
        17 => drop(g.op("m * u", || m * u)),
        18 => drop(g.op("&m * &u", || &m * &u)),
        19 => drop(g.op("m * v", || m * v)),
        20 => drop(g.op("sum and clamped", || (m.sum(), m.clamped(t(1), t(2))))),
        21 => drop(g.op("== and approximate", || (m == w, approx::ApproxEq::relative_eq(&m, &w, 0, 0)))),
        22 => drop(g.op("Debug", || write!(String::new(), "{:?}", m))),
        23 => {
            let z = Matrix::<Complex<F<Z>>, R, C>::generate(|(i, j)| Complex::new(t(i), t(j)));
            g.op("conjugate", || z.conjugate());
        }
        24 => drop(g.op("rows_iter", || {
            let mut it = m.rows_iter();
            let a = it.next_back();
            tick();
            let b = it.nth(1);
            (a, b, it.map(through).count())
        })),
        _ => drop(g.op("cols_iter", || {
            let mut it = m.cols_iter();
            let a = it.next_back();
            tick();
            let b = it.nth(1);
            (a, b, it.map(through).count())
        })),
    }
}

pub const SQUARE: usize = 12;
/// What needs concrete lengths.
pub fn fixed<Z: Slot, G: Runner>(g: &G, op: usize) {
    let mut m = Matrix::<F<Z>, U3, U3>::generate(|(i, j)| F::new([[0, 2, 5], [7, 1, 3], [4, 9, 8]][i][j]));
    match op {
        0 => drop(g.op("transpose", || m.transpose())),
        1 => drop(g.op("m *= w", || m *= mat::<Z, U3, U3>())),
        2 => drop(g.op("pow", || m.pow(6))),
        3 => drop(g.op("identity and one", || (Matrix::<F<Z>, U3, U3>::identity(), <Matrix<F<Z>, U3, U3> as One>::one()))),
        4 => drop(g.op("max and min", || (m.max().v(), m.min().v()))),
        5 => drop(g.op("diag", || Matrix::<F<Z>, U3, U3>::diag([t(1), t(2), t(3)]))),
        6 => drop(g.op("determinant", || m.determinant())),
        7 => drop(g.op("inverse", || m.inverse())),
        8 => drop(g.op("cofactor", || m.cofactor((2, 1)))),
        9 => {
            let mut it = vec::<Z, U12>().into_chunks::<U3>();
            g.op("chunks from both ends", || {
                let a = it.next();
                tick();
                let b = it.next_back();
                (a, b)
            });
            crate::ensure_eq!(it.len() * 3, it.map(|c| c.iter().map(|x| x.v()).count()).sum::<usize>(), "elements left in a chunk iterator");
        }
        10 => drop(g.op("reshape", || Matrix::<F<Z>, U2, U3>::from(vec::<Z, U6>()))),
        _ => drop(g.op("cross", || vec::<Z, U3>().cross(&vec::<Z, U3>()))),
    }
    use_mat(&mut m);
}
