//! C02: a panic injected at every call of caller-supplied code (and at every destructor) of every operation.
use mc::kindops::{self, Runner};
use mc::kinds::{self, *};
use mc::shapes::*;
use mc::tok::{self, tick, Tok, ZTok};
use mc::*;
use num::{Bounded, Complex, One, Zero};
use rowcol::matrix::Matrix;
use rowcol::prelude::{Cofactor, Determinant, Inverse};
use rowcol::typenum::Unsigned;
use rowcol::vector::{ArrayLen, Vector};
use rowcol_mc as mc;
use std::cell::{Cell, RefCell};
use std::fmt::{self, Write};

/// One run of a scenario: where to panic.
struct Go {
    /// panic in this call / destructor of the first operation (0: never)
    call: u64,
    drop: u64,
    /// panic in this call of the second operation
    second: u64,
    seen: RefCell<Vec<(u64, u64)>>,
    hits: Cell<u32>,
    /// the first operation
    what: RefCell<String>,
}
impl Go {
    /// Runs an operation of the library with the faults of this run.
    fn op<T>(&self, name: &str, f: impl FnOnce() -> T) -> Option<T> {
        let nth = self.seen.borrow().len();
        if nth == 0 {
            *self.what.borrow_mut() = name.into();
        }
        let (c, d) = match nth {
            0 => (self.call, self.drop),
            1 => (self.second, 0),
            _ => (0, 0),
        };
        tok::arm(c, d);
        let r = catch(f);
        let n = tok::counts();
        tok::arm(0, 0);
        self.seen.borrow_mut().push(n);
        match r {
            Ok(v) => Some(v),
            Err(Caught::Injected) => {
                self.hits.set(self.hits.get() + 1);
                None
            }
            Err(Caught::Lib(m)) => mc::fail(format!("{} panicked by itself: {}", name, m)),
        }
    }
}

impl Runner for Go {
    fn op<T>(&self, name: &str, f: impl FnOnce() -> T) -> Option<T> {
        Go::op(self, name, f)
    }
}

/// Runs a scenario with every single fault (thorough: also every pair of a call in the first and one in the second operation).
fn drive(ctx: &mut Ctx, pairs: bool, instance: &str, f: &dyn Fn(&Go)) {
    let run = |call, drop, second| {
        kinds::reset();
        let g = Go { call, drop, second, seen: RefCell::new(vec![]), hits: Cell::new(0), what: RefCell::new(String::new()) };
        f(&g);
        g
    };
    // the calls and destructors of the operation; counted once per scenario
    let key = (instance.to_string(), ctx.taken().to_vec());
    let known = DRY.with(|d| d.borrow().0.eq(&key).then(|| d.borrow().1.clone()));
    let (op, calls, drops) = known.unwrap_or_else(|| {
        let dry = run(0, 0, 0);
        let op = dry.what.borrow().clone();
        kinds::verify(&format!("{} of {} without a panic", op, instance));
        let (calls, drops) = dry.seen.borrow().first().cloned().unwrap_or((0, 0));
        DRY.with(|d| *d.borrow_mut() = (key, (op.clone(), calls, drops)));
        (op, calls, drops)
    });
    let k = ctx.choose((calls + drops + 1) as usize) as u64;
    let (call, drop) = if k <= calls { (k, 0) } else { (0, k - calls) };
    let g = run(call, drop, 0);
    let fault = |call: u64, drop: u64| match (call, drop) {
        (0, 0) => "no panic".to_string(),
        (c, 0) => format!("a panic in call {} of the caller's code", c),
        (_, d) => format!("a panic in destructor {}", d),
    };
    let when = format!("{} of {} with {}", op, instance, fault(call, drop));
    log!(ctx, "{}", when);
    ctx.step();
    ctx.state((instance, &op, call, drop));
    ctx.outcome((instance, &op, call, drop, g.hits.get()));
    if drop == 0 {
        kinds::verify(&when);
    } else {
        // what a panicking destructor leaves behind may leak, but nothing may be dropped twice
        let e = tok::errors();
        ensure!(e.is_empty(), "{}: {}", when, e.join("; "));
        ensure!(tok::alive() >= 0, "{}: dropped too often", when);
    }
    if pairs && drop == 0 && call > 0 && g.seen.borrow().len() > 1 {
        let n = g.seen.borrow()[1].0;
        let j = ctx.choose(n as usize + 1) as u64;
        if j > 0 {
            run(call, 0, j);
            ctx.step();
            kinds::verify(&format!("{}, then a panic in call {} of the next operation", when, j));
        }
    }
}

fn t(i: usize) -> Tok {
    Tok::new(1 + i as i64 % 6)
}
fn vec<N: ArrayLen<Tok>>() -> Vector<Tok, N> {
    Vector::generate(t)
}
fn small() -> Tok {
    Tok::new(2)
}
fn large() -> Tok {
    Tok::new(4)
}
/// Survivors are valid and usable.
fn use_vec<N: ArrayLen<Tok>>(g: &Go, v: &mut Vector<Tok, N>) {
    let n = <N as Unsigned>::to_usize();
    ensure_eq!(v.as_slice().len(), n, "length of a surviving vector");
    for i in 0..n {
        v[i].v();
    }
    g.op("clone of a survivor", || v.clone());
    for i in 0..n {
        v[i].v();
        v[i] = Tok::new(1);
    }
}
fn use_mat<R, C>(g: &Go, m: &mut Matrix<Tok, R, C>)
where
    R: ArrayLen<Vector<Tok, C>>,
    C: ArrayLen<Tok>,
{
    let (r, c) = (<R as Unsigned>::to_usize(), <C as Unsigned>::to_usize());
    for i in 0..r {
        for j in 0..c {
            m[(i, j)].v();
        }
    }
    g.op("clone of a survivor", || m.clone());
    for i in 0..r {
        for j in 0..c {
            m[(i, j)].v();
            m[(i, j)] = Tok::new(1);
        }
    }
}

/// A source of elements that may panic instead of giving the next one, and owns those it has not given yet.
struct Source {
    left: Vec<Tok>,
    exact: bool,
}
impl Source {
    fn new(n: usize, exact: bool) -> Source {
        Source { left: (0..n).rev().map(t).collect(), exact }
    }
}
impl Iterator for Source {
    type Item = Tok;
    fn next(&mut self) -> Option<Tok> {
        tick();
        self.left.pop()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        tick();
        if self.exact {
            (self.left.len(), Some(self.left.len()))
        } else {
            (0, None)
        }
    }
}
/// A sink that may panic.
struct Sink;
impl fmt::Write for Sink {
    fn write_str(&mut self, _: &str) -> fmt::Result {
        tick();
        Ok(())
    }
}

const VOPS: usize = 44;
fn vector_op<N: Unsigned + ArrayLen<Tok> + ArrayLen<ZTok>>(g: &Go, op: usize) {
    let n = <N as Unsigned>::to_usize();
    let mut v = vec::<N>();
    let mut w = vec::<N>();
    macro_rules! pure {
        ($name:expr, $e:expr) => {{
            g.op($name, || $e);
            use_vec(g, &mut v);
            use_vec(g, &mut w);
        }};
    }
    macro_rules! consume {
        ($name:expr, $e:expr) => {{
            g.op($name, move || $e);
        }};
    }
    match op {
        0 => drop(g.op("generate", || Vector::<Tok, N>::generate(|i| { tick(); t(i) }))),
        1 => drop(g.op("collect", || Source::new(n, true).collect::<Vector<Tok, N>>())),
        2 => drop(g.op("collect", || Source::new(n, false).collect::<Vector<Tok, N>>())),
        3 => consume!("map and collect", v.into_iter().map(|x| { tick(); drop(x); Tok::new(3) }).collect::<Vector<Tok, N>>()),
        4 => consume!("collect with moved elements", v.into_iter().inspect(|_| tick()).collect::<Vector<Tok, N>>()),
        5 => pure!("clone", v.clone()),
        6 => {
            g.op("clone_from", || v.clone_from(&w));
            use_vec(g, &mut v);
            use_vec(g, &mut w);
        }
        7 => drop(g.op("default", || Vector::<Tok, N>::default())),
        8 => drop(g.op("zero", || Vector::<Tok, N>::zero())),
        9 => drop(g.op("min_value", || Vector::<Tok, N>::min_value())),
        10 => drop(g.op("max_value", || Vector::<Tok, N>::max_value())),
        11 => pure!("is_zero", { Vector::<Tok, N>::generate(|_| Tok::new(0)).is_zero() }),
        12 => consume!("v + w", v + w),
        13 => {
            g.op("v - &w", || v - &w);
            use_vec(g, &mut w);
        }
        14 => {
            g.op("&v + w", || &v + w);
            use_vec(g, &mut v);
        }
        15 => pure!("&v - &w", &v - &w),
        16 => {
            g.op("v += w", || v += w);
            use_vec(g, &mut v);
        }
        17 => {
            g.op("v -= w", || v -= w);
            use_vec(g, &mut v);
        }
        18 => consume!("v * t", v * Tok::new(3)),
        19 => {
            g.op("v *= t", || v *= Tok::new(3));
            use_vec(g, &mut v);
        }
        20 => consume!("v / t", v / Tok::new(3)),
        21 => {
            g.op("v /= t", || v /= Tok::new(3));
            use_vec(g, &mut v);
        }
        22 => consume!("-v", -v),
        23 => pure!("dot", v.dot(&w)),
        24 => pure!("sum", v.sum()),
        25 => pure!("clamped", v.clamped(small(), large())),
        26 => {
            g.op("clamp", || v.clamp(small(), large()));
            use_vec(g, &mut v);
        }
        27 => pure!("==", v == w),
        28 => pure!("!=", v != w),
        29 => pure!("Debug", { let _ = write!(String::new(), "{:?}", v); }),
        30 => pure!("Debug into a sink", { let _ = write!(Sink, "{:?} {:#?}", v, w); }),
        31 => consume!("fold", v.into_iter().fold(Tok::new(0), |a, x| { tick(); a + x })),
        32 => consume!("rev and collect", v.into_iter().rev().map(|x| { tick(); x }).collect::<Vector<Tok, N>>()),
        33 => {
            let mut it = v.into_iter();
            g.op("for_each over a part", || it.by_ref().take(n / 2 + 1).for_each(|x| { tick(); drop(x) }));
            let left = it.len();
            ensure!(left <= n, "an iterator over {} elements has {} left", n, left);
            ensure_eq!(it.map(|x| x.v()).count(), left, "elements left in an iterator after a panic");
            use_vec(g, &mut w);
        }
        34 => {
            let mut it = v.into_iter();
            it.next();
            g.op("nth", || it.nth(n / 2));
            let left = it.len();
            ensure_eq!(it.rev().map(|x| x.v()).count(), left, "elements left in an iterator after a panic");
        }
        35 => {
            let mut it = v.into_iter();
            it.next_back();
            g.op("nth_back", || it.nth_back(n / 3));
            let left = it.len();
            ensure_eq!(it.map(|x| x.v()).count(), left, "elements left in an iterator after a panic");
        }
        36 => consume!("drop of a partly consumed iterator", { let mut it = v.into_iter(); it.next(); it.next_back(); drop(it) }),
        37 => consume!("count", v.into_iter().count()),
        38 => consume!("last", v.into_iter().last()),
        39 => consume!("drop", drop(v)),
        40 => {
            let z = Vector::<ZTok, N>::generate(|_| ZTok::new());
            g.op("clone of zero-sized elements", || z.clone());
            ensure_eq!(z.len(), n, "length of a surviving vector");
        }
        41 => {
            g.op("generate of zero-sized elements", || Vector::<ZTok, N>::generate(|_| { tick(); ZTok::new() }));
        }
        42 => {
            let it = Vector::<ZTok, N>::generate(|_| ZTok::new()).into_iter();
            g.op("map of zero-sized elements", || it.map(|z| { tick(); z }).collect::<Vector<ZTok, N>>());
        }
        _ => {
            let mut it = v.into_iter();
            g.op("partly collected", || it.by_ref().filter(|x| { tick(); x.v() % 2 == 0 }).collect::<Vec<Tok>>());
            let left = it.len();
            ensure_eq!(it.map(|x| x.v()).count(), left, "elements left in an iterator after a panic");
        }
    }
}
fn vector<N: Unsigned + ArrayLen<Tok> + ArrayLen<ZTok>>(ctx: &mut Ctx) {
    let op = ctx.choose(VOPS);
    drive(ctx, PAIRS.with(|p| p.get()), &format!("length {}", <N as Unsigned>::to_usize()), &|g| vector_op::<N>(g, op));
}

thread_local! {
    static DRY: RefCell<((String, Vec<u32>), (String, u64, u64))> = RefCell::new(Default::default());
    static PAIRS: Cell<bool> = const { Cell::new(false) };
}

/// Operations of vectors of positive length.
macro_rules! pos_vec {
    ($N:ident, $n:expr, $t:ident) => {
        $t.push((stringify!($N), (|ctx: &mut Ctx| {
            let op = ctx.choose(5);
            drive(ctx, PAIRS.with(|p| p.get()), concat!("length ", stringify!($N)), &|g| {
                let mut v = vec::<$N>();
                match op {
                    0 => { g.op("max", || v.max()); }
                    1 => { g.op("min", || v.min()); }
                    2 => { g.op("max_by", || v.max_by(|a, b| { tick(); a.v().cmp(&b.v()) })); }
                    3 => { g.op("min_by", || v.min_by(|a, b| { tick(); a.v().cmp(&b.v()) })); }
                    _ => {
                        let mut it = v.into_chunks::<U1>();
                        g.op("for_each over chunks", || it.by_ref().take($n / 2 + 1).for_each(|x| { tick(); drop(x) }));
                        let left = it.len();
                        ensure_eq!(it.flat_map(|c| c.into_iter()).map(|x| x.v()).count(), left, "elements left in a chunk iterator after a panic");
                        v = vec();
                    }
                }
                use_vec(g, &mut v);
            });
        }) as fn(&mut Ctx)));
    };
}
/// Chunks, reshaping, cross product.
fn special(ctx: &mut Ctx) {
    let op = ctx.choose(9);
    drive(ctx, PAIRS.with(|p| p.get()), "fixed lengths", &|g| match op {
        0 => {
            let (mut a, mut b) = (vec::<U3>(), vec::<U3>());
            g.op("cross", || a.cross(&b));
            use_vec(g, &mut a);
            use_vec(g, &mut b);
        }
        1 => {
            let mut it = vec::<U12>().into_chunks::<U3>();
            g.op("chunks, next and nth", || {
                drop(it.next());
                drop(it.nth(1));
            });
            ensure_eq!(it.len() * 3, it.map(|c| c.iter().map(|x| x.v()).count()).sum::<usize>(), "elements left in a chunk iterator after a panic");
        }
        2 => {
            let mut it = vec::<U12>().into_chunks::<U2>();
            g.op("chunks, next_back and nth_back", || {
                drop(it.next_back());
                drop(it.nth_back(1));
            });
            ensure_eq!(it.len() * 2, it.map(|c| c.iter().map(|x| x.v()).count()).sum::<usize>(), "elements left in a chunk iterator after a panic");
        }
        3 => {
            g.op("chunks, map and collect", || vec::<U6>().into_chunks::<U2>().map(|c| c.into_iter().map(|x| { tick(); x }).collect::<Vector<Tok, U2>>()).collect::<Vector<Vector<Tok, U2>, U3>>());
        }
        4 => {
            g.op("reshape", || Matrix::<Tok, U2, U3>::from(vec::<U6>()));
        }
        5 => {
            g.op("reshape and map", || Matrix::<Tok, U2, U2>::from(vec::<U4>()).map(|_, x| { tick(); x }));
        }
        6 => {
            g.op("chunks, fold", || vec::<U6>().into_chunks::<U3>().fold(Tok::new(0), |s, c| s + c.sum()));
        }
        7 => {
            let v = vec::<U4>();
            g.op("nested clone", || Vector::<Vector<Tok, U4>, U3>::generate(|_| v.clone()));
        }
        _ => {
            let v: Vector<Vector<Tok, U2>, U3> = Vector::generate(|_| vec());
            g.op("nested clone", || v.clone());
            g.op("nested equality", || v == v);
        }
    });
}

const MOPS: usize = 52;
fn mat<R, C>() -> Matrix<Tok, R, C>
where
    R: ArrayLen<Vector<Tok, C>>,
    C: ArrayLen<Tok>,
{
    Matrix::generate(|(i, j)| Tok::new(((1 + i * 3 + j * j) % 7) as i64))
}
fn matrix_op<R, C>(g: &Go, op: usize)
where
    R: Unsigned + ArrayLen<Vector<Tok, C>> + ArrayLen<Tok> + ArrayLen<Vector<Complex<Tok>, C>> + ArrayLen<Vector<Tok, R>> + ArrayLen<Vector<ZTok, C>>,
    C: Unsigned + ArrayLen<Tok> + ArrayLen<Vector<Tok, R>> + ArrayLen<Complex<Tok>> + ArrayLen<ZTok>,
    Matrix<Tok, R, C>: fmt::Display,
{
    let mut m = mat::<R, C>();
    let mut w = mat::<R, C>();
    let mut u = mat::<C, R>();
    let mut v = vec::<C>();
    macro_rules! pure {
        ($name:expr, $e:expr) => {{
            g.op($name, || $e);
            use_mat(g, &mut m);
            use_mat(g, &mut w);
            use_mat(g, &mut u);
            use_vec(g, &mut v);
        }};
    }
    macro_rules! consume {
        ($name:expr, $e:expr; $($left:ident),*) => {{
            g.op($name, || $e);
            $( use_mat(g, &mut $left); )*
        }};
    }
    match op {
        0 => drop(g.op("generate", || Matrix::<Tok, R, C>::generate(|(i, j)| { tick(); t(i + j) }))),
        1 => consume!("map", m.map(|_, x| { tick(); drop(x); Tok::new(2) });),
        2 => consume!("map to itself", m.map(|_, x| { tick(); x }); w),
        3 => consume!("map to pairs", m.map(|(i, j), x| { tick(); Complex::new(x, t(i + j)) });),
        4 => pure!("all", m.all(|_, x| { tick(); x.v() >= 0 })),
        5 => pure!("any", m.any(|_, x| { tick(); x.v() < 0 })),
        6 => pure!("transposed", m.transposed()),
        7 => pure!("clone", m.clone()),
        8 => pure!("clone_from", m.clone_from(&w)),
        9 => drop(g.op("default", || Matrix::<Tok, R, C>::default())),
        10 => drop(g.op("zero", || Matrix::<Tok, R, C>::zero())),
        11 => pure!("is_zero", m.is_zero()),
        12 => pure!("is_zero of zero", Matrix::<Tok, R, C>::generate(|_| Tok::new(0)).is_zero()),
        13 => drop(g.op("min_value", || Matrix::<Tok, R, C>::min_value())),
        14 => drop(g.op("max_value", || Matrix::<Tok, R, C>::max_value())),
        15 => consume!("m + w", m + w;),
        16 => consume!("m - &w", m - &w; w),
        17 => consume!("&m + w", &m + w; m),
        18 => pure!("&m - &w", &m - &w),
        19 => consume!("m += w", m += w; m),
        20 => consume!("m -= w", m -= w; m),
        21 => consume!("-m", -m;),
        22 => consume!("m * t", m * Tok::new(3);),
        23 => {
            let x = Tok::new(3);
            g.op("m * &t", || m * &x);
            x.v();
        }
        24 => consume!("m *= t", m *= Tok::new(3); m),
        25 => consume!("m / t", m / Tok::new(3);),
        26 => {
            let x = Tok::new(3);
            g.op("m / &t", || m / &x);
            x.v();
        }
        27 => consume!("m /= t", m /= Tok::new(3); m),
        28 => consume!("m * u", m * u;),
        29 => consume!("m * &u", m * &u; u),
        30 => consume!("&m * u", &m * u; m),
        31 => pure!("&m * &u", &m * &u),
        32 => {
            g.op("m * v", || m * v);
        }
        33 => {
            g.op("m * &v", || m * &v);
            use_vec(g, &mut v);
        }
        34 => pure!("sum", m.sum()),
        35 => pure!("clamped", m.clamped(small(), large())),
        36 => consume!("clamp", m.clamp(small(), large()); m),
        37 => pure!("==", m == w),
        38 => pure!("!=", m != w),
        39 => pure!("Debug", { let _ = write!(String::new(), "{:?}", m); }),
        40 => pure!("Debug into a sink", { let _ = write!(Sink, "{:?}", m); }),
        41 => pure!("Display", { let _ = write!(String::new(), "{}", m); }),
        42 => pure!("Display into a sink", { let _ = write!(Sink, "{:6}", m); }),
        43 => pure!("relative_eq", approx::ApproxEq::relative_eq(&m, &w, 0, 0)),
        44 => pure!("ulps_ne", approx::ApproxEq::ulps_ne(&m, &w, 0, 0)),
        45 => {
            let z = Matrix::<Complex<Tok>, R, C>::generate(|(i, j)| Complex::new(t(i), t(j)));
            g.op("conjugate", || z.conjugate());
            z.all(|_, c| c.re.v() + c.im.v() >= 0);
        }
        46 => pure!("rows_iter", m.rows_iter().map(|r| { tick(); drop(r) }).count()),
        47 => pure!("cols_iter", m.cols_iter().map(|r| { tick(); drop(r) }).count()),
        48 => {
            let mut it = m.rows_iter();
            g.op("rows_iter, next_back and nth", || {
                drop(it.next_back());
                drop(it.nth(1));
            });
            let left = it.len();
            ensure_eq!(it.map(|r| r.iter().map(|x| x.v()).count()).count(), left, "rows left after a panic");
            use_mat(g, &mut m);
        }
        49 => {
            let mut it = m.cols_iter();
            g.op("cols_iter, next_back and nth", || {
                drop(it.next_back());
                drop(it.nth(1));
            });
            let left = it.len();
            ensure_eq!(it.map(|r| r.iter().map(|x| x.v()).count()).count(), left, "columns left after a panic");
            use_mat(g, &mut m);
        }
        50 => {
            let z = Matrix::<ZTok, R, C>::generate(|_| ZTok::new());
            g.op("clone of zero-sized elements", || z.clone());
        }
        _ => {
            let z = Matrix::<ZTok, R, C>::generate(|_| ZTok::new());
            g.op("map of zero-sized elements", || z.map(|_, x| { tick(); x }));
        }
    }
}
fn matrix<R, C>(ctx: &mut Ctx)
where
    R: Unsigned + ArrayLen<Vector<Tok, C>> + ArrayLen<Tok> + ArrayLen<Vector<Complex<Tok>, C>> + ArrayLen<Vector<Tok, R>> + ArrayLen<Vector<ZTok, C>>,
    C: Unsigned + ArrayLen<Tok> + ArrayLen<Vector<Tok, R>> + ArrayLen<Complex<Tok>> + ArrayLen<ZTok>,
    Matrix<Tok, R, C>: fmt::Display,
{
    // the interpreter is slow: the operations that build, move and take apart
    const MIRI: [usize; 16] = [0, 1, 2, 6, 7, 8, 9, 15, 18, 19, 28, 32, 46, 47, 48, 51];
    let op = if cfg!(miri) { MIRI[ctx.choose(MIRI.len())] } else { ctx.choose(MOPS) };
    let name = format!("shape {}x{}", <R as Unsigned>::to_usize(), <C as Unsigned>::to_usize());
    drive(ctx, PAIRS.with(|p| p.get()), &name, &|g| matrix_op::<R, C>(g, op));
}

macro_rules! square {
    ($N:ident, $n:expr, $t:ident) => {
        $t.push((stringify!($N), (|ctx: &mut Ctx| {
            let op = ctx.choose(12);
            drive(ctx, PAIRS.with(|p| p.get()), concat!("size ", stringify!($N)), &|g| {
                let mut m = mat::<$N, $N>();
                match op {
                    0 => { g.op("transpose", || m.transpose()); }
                    1 => { g.op("m *= w", || m *= mat::<$N, $N>()); }
                    2 => { g.op("pow(0)", || m.pow(0)); }
                    3 => { g.op("pow(5)", || m.pow(5)); }
                    4 => { g.op("identity", || Matrix::<Tok, $N, $N>::identity()); }
                    5 => { g.op("one", || <Matrix<Tok, $N, $N> as One>::one()); }
                    6 => { g.op("max", || m.max()); }
                    7 => { g.op("min", || m.min()); }
                    8 => { g.op("max_by", || m.max_by(|a, b| { tick(); a.v().cmp(&b.v()) })); }
                    9 => { g.op("min_by", || m.min_by(|a, b| { tick(); a.v().cmp(&b.v()) })); }
                    10 => { g.op("diag", || Matrix::<Tok, $N, $N>::diag(std::array::from_fn::<_, $n, _>(t))); }
                    _ => { g.op("pow(6)", || m.pow(6)); }
                }
                use_mat(g, &mut m);
            });
        }) as fn(&mut Ctx)));
    };
}
/// The field operations, on a regular matrix, one that needs pivoting and a singular one.
macro_rules! field {
    ($t:ident; $($N:ident $n:expr),*) => { $(
        $t.push((stringify!($N), (|ctx: &mut Ctx| {
            let kind = ctx.choose(3);
            let op = ctx.choose(if $n > 1 { 4 } else { 2 });
            drive(ctx, PAIRS.with(|p| p.get()), &format!("size {} of kind {}", $n, kind), &|g| {
                let mut m = Matrix::<Tok, $N, $N>::generate(|(i, j)| Tok::new(match kind {
                    0 => ((1 + i * 3 + j * j + (i * j) / 2) % 7) as i64,
                    1 => if (i + 1) % $n == j { 1 } else { 0 },
                    _ => ((i + 1) * (j + 2) % 7) as i64,
                }));
                match op {
                    0 => { g.op("determinant", || m.determinant()); }
                    1 => { g.op("inverse", || m.inverse()); }
                    _ => field!(@cof $N, $n, g, m, op),
                }
                use_mat(g, &mut m);
            });
        }) as fn(&mut Ctx)));
    )* };
    (@cof U1, $n:expr, $g:ident, $m:ident, $op:ident) => {
        {}
    };
    (@cof $N:ident, $n:expr, $g:ident, $m:ident, $op:ident) => {
        if $op == 2 {
            $g.op("cofactor of the first entry", || $m.cofactor((0, 0)));
        } else {
            $g.op("cofactor of a last entry", || $m.cofactor(($n - 1, $n - 2)));
        }
    };
}

/// Elements with a destructor of every size and alignment.
fn kind_vector<Z: Slot, N: ArrayLen<kinds::F<Z>>>(ctx: &mut Ctx) {
    let op = ctx.choose(kindops::VECTOR);
    drive(ctx, false, &format!("{} bytes, length {}", std::mem::size_of::<Z>(), <N as Unsigned>::to_usize()), &|g| kindops::vector::<Z, N, Go>(g, op));
}
fn kind_matrix<Z: Slot, R, C>(ctx: &mut Ctx)
where
    R: ArrayLen<Vector<kinds::F<Z>, C>> + ArrayLen<kinds::F<Z>> + ArrayLen<Vector<Complex<kinds::F<Z>>, C>> + ArrayLen<Vector<kinds::F<Z>, R>>,
    C: ArrayLen<kinds::F<Z>> + ArrayLen<Vector<kinds::F<Z>, R>> + ArrayLen<Complex<kinds::F<Z>>>,
{
    let op = ctx.choose(kindops::MATRIX);
    let name = format!("{} bytes, {}x{}", std::mem::size_of::<Z>(), <R as Unsigned>::to_usize(), <C as Unsigned>::to_usize());
    drive(ctx, false, &name, &|g| kindops::matrix::<Z, R, C, Go>(g, op));
}
fn kind_fixed<Z: Slot>(ctx: &mut Ctx) {
    let op = ctx.choose(kindops::SQUARE);
    drive(ctx, false, &format!("{} bytes", std::mem::size_of::<Z>()), &|g| kindops::fixed::<Z, Go>(g, op));
}
macro_rules! kinds_table {
    ($t:ident; $($S:ident)*) => { $(
        kinds_table!(@ $t $S kind_vector U0, kind_vector U1, kind_vector U2, kind_vector U3, kind_vector U4, kind_vector U8, kind_vector U17);
        kinds_table!(@ $t $S kind_matrix U1 U1, kind_matrix U2 U3, kind_matrix U3 U2, kind_matrix U3 U3, kind_matrix U1 U5, kind_matrix U5 U1);
        kinds_table!(@ $t $S kind_fixed);
    )* };
    (@ $t:ident $S:ident $($f:ident $($N:ident)*),*) => { $( $t.push((concat!(stringify!($S), ": ", $(stringify!($N), " "),*), $f::<$S $(, $N)*> as fn(&mut Ctx))); )* };
}

fn main() {
    let ck = Check::new("C02");
    let pairs = ck.thorough;
    macro_rules! go {
        ($name:expr, $t:expr, $b:expr) => {{
            let t: Table = $t;
            ck.bound($name, format!("{}; a panic at every call and every destructor{}", $b, if pairs { "; and every pair of calls in the operation and the next one" } else { "" }));
            ck.explore($name, |ctx| {
                PAIRS.with(|p| p.set(pairs));
                let (n, f) = t[ctx.choose(t.len())];
                log!(ctx, "instance {}", n);
                f(ctx)
            });
        }};
    }
    let mut vt: Table = vec![];
    let mut pt: Table = vec![];
    let mut mt: Table = vec![];
    let mut st: Table = vec![];
    let mut ft: Table = vec![];
    if cfg!(miri) {
        vt.push(("U2", vector::<U2>));
        pos_vec!(U2, 2usize, pt);
        mt.push(("2x1", matrix::<U2, U1>));
    } else {
        for_lens!(push_len, vt, vector);
        for_pos_lens!(pos_vec, pt);
        for_small_shapes!(push_shape, mt, matrix);
        mt.push(("5x5", matrix::<U5, U5>));
        mt.push(("1x9", matrix::<U1, U9>));
        mt.push(("9x1", matrix::<U9, U1>));
        mt.push(("2x7", matrix::<U2, U7>));
        mt.push(("7x2", matrix::<U7, U2>));
        mt.push(("17x2", matrix::<U17, U2>));
        mt.push(("2x32", matrix::<U2, U32>));
        square!(U1, 1usize, st);
        square!(U2, 2usize, st);
        square!(U3, 3usize, st);
        square!(U4, 4usize, st);
        square!(U5, 5usize, st);
        square!(U6, 6usize, st);
        field!(ft; U1 1, U2 2, U3 3, U4 4, U5 5);
    }
    go!("vectors", vt, "44 operations on every length 0..=32");
    go!("vectors of positive length", pt, "5 operations on every length 1..=32");
    go!("matrices", mt, "52 operations on shapes 0x0..4x4 and seven larger ones");
    if !cfg!(miri) {
        go!("square matrices", st, "12 operations on sizes 1..=6");
    }
    if !cfg!(miri) {
        go!("determinants, cofactors and inverses", ft, "three matrices of sizes 1..=5");
        go!("chunks, reshaping, nesting", vec![("", special as fn(&mut Ctx))], "9 scenarios");
    }
    let mut kt: Table = vec![];
    if !cfg!(miri) {
        kinds_table!(kt; KD1 KD2 KD4 KD5 KD8 KD12 KD16 KD24 KD32a16 KD128a64 KD4160a64);
        go!("kinds", kt, "11 kinds of elements (1 to 4160 bytes) with a destructor: 30 operations on lengths 0, 1, 2, 3, 4, 8, 17, 26 on six shapes, 12 on fixed ones");
    }
    ck.finish();
}
