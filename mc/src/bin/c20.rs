//! C20: a transcript of every operation on enumerated inputs; check.py compares the transcripts of all build configurations.
#[macro_use]
extern crate rowcol;
use mc::explore::Caught;
use mc::shapes::*;
use mc::tok::{self, Tok};
use mc::*;
use num::{Bounded, Complex, One, Zero};
use rowcol::matrix::Matrix;
use rowcol::prelude::{Cofactor, Determinant, Inverse};
use rowcol::typenum::Unsigned;
use rowcol::vector::{ArrayLen, Vector};
use rowcol_mc as mc;
use std::fmt::{self, Debug, Write as _};
use std::sync::Mutex;

include!("../gen_chunks.rs");

static LINES: Mutex<Vec<(String, String)>> = Mutex::new(Vec::new());

/// The transcript of one execution.
struct T<'a> {
    ctx: &'a mut Ctx,
    prefix: String,
    lines: Vec<(String, String)>,
}
impl<'a> T<'a> {
    fn new(ctx: &'a mut Ctx, harness: &str, input: String) -> T<'a> {
        tok::reset();
        log!(ctx, "{}", input);
        T { ctx, prefix: format!("{} :: {}", harness, input), lines: vec![] }
    }
    /// Runs one operation and writes its outcome down.
    fn put<D: Debug>(&mut self, op: &str, f: impl FnOnce() -> D) {
        FUEL.with(|f| f.set(1_000_000));
        let r = match catch(f) {
            Ok(v) => match catch(|| format!("{:?}", v)) {
                Ok(s) => s,
                Err(_) => "a value that cannot be shown".into(),
            },
            Err(Caught::Injected) => "stopped by the panic of the caller's code".into(),
            Err(Caught::Lib(_)) => "rejected".into(),
        };
        self.ctx.step();
        log!(self.ctx, "{} -> {}", op, r);
        self.lines.push((format!("{}, {}", self.prefix, op), r));
    }
    /// Writes down what the registry of tracked elements says.
    fn registry(&mut self) {
        let (n, e) = (tok::alive(), tok::errors());
        self.lines.push((format!("{}, elements left", self.prefix), format!("{} {:?}", n, e)));
    }
}
impl<'a> Drop for T<'a> {
    fn drop(&mut self) {
        for (k, v) in &self.lines {
            self.ctx.outcome((k, v));
        }
        LINES.lock().unwrap().append(&mut self.lines);
    }
}

/// A panic of the caller's code.
fn stop() {
    std::panic::resume_unwind(Box::new(mc::explore::Injected))
}

thread_local!(static FUEL: std::cell::Cell<u64> = const { std::cell::Cell::new(0) });
/// Ends operations that would take years (such as a power computed one factor at a time), in every configuration alike.
fn burn() {
    FUEL.with(|f| match f.get() {
        0 => stop(),
        n => f.set(n - 1),
    })
}

/// Entries whose arithmetic never depends on overflow checks.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
struct W(i64);
macro_rules! w_ops {
    ($($tr:ident $f:ident $tra:ident $fa:ident $w:ident;)*) => { $(
        impl std::ops::$tr for W { type Output = W; fn $f(self, o: W) -> W { burn(); W(self.0.$w(o.0)) } }
        impl<'a> std::ops::$tr<&'a W> for W { type Output = W; fn $f(self, o: &W) -> W { W(self.0.$w(o.0)) } }
        impl<'b> std::ops::$tr<W> for &'b W { type Output = W; fn $f(self, o: W) -> W { W(self.0.$w(o.0)) } }
        impl<'a, 'b> std::ops::$tr<&'a W> for &'b W { type Output = W; fn $f(self, o: &W) -> W { W(self.0.$w(o.0)) } }
        impl std::ops::$tra for W { fn $fa(&mut self, o: W) { self.0 = self.0.$w(o.0) } }
    )* };
}
w_ops! { Add add AddAssign add_assign wrapping_add; Sub sub SubAssign sub_assign wrapping_sub; Mul mul MulAssign mul_assign wrapping_mul; Div div DivAssign div_assign wrapping_div; }
impl std::ops::Neg for W {
    type Output = W;
    fn neg(self) -> W {
        W(self.0.wrapping_neg())
    }
}
impl Zero for W {
    fn zero() -> W {
        W(0)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0
    }
}
impl One for W {
    fn one() -> W {
        W(1)
    }
}
impl Bounded for W {
    fn min_value() -> W {
        W(i64::MIN)
    }
    fn max_value() -> W {
        W(i64::MAX)
    }
}

/// The values of entry k under input number `i`: all of {-2, 0, 3} for the first ones, then fixed patterns.
fn value(n: usize, i: u64, k: usize) -> W {
    if n <= 4 {
        return W([-2, 0, 3][(i / 3u64.pow(k as u32) % 3) as usize]);
    }
    W(match i {
        0 => k as i64 * 7 % 31 - 11,
        1 => 0,
        2 => if k % 2 == 0 { -1 } else { 4 },
        _ => if k == n / 2 { i64::MIN } else { i64::MAX - k as i64 % 3 },
    })
}
fn values(n: usize) -> usize {
    if n <= 4 { 3usize.pow(n as u32) } else { 4 }
}

/// Indices inside, at the border, outside.
fn indices(n: usize) -> Vec<usize> {
    let mut v = vec![0, 1, n / 2, n.wrapping_sub(1), n, n + 1, 31, 32, 33, 64, usize::MAX / 2, usize::MAX / 2 + 1, usize::MAX - 1, usize::MAX];
    v.sort();
    v.dedup();
    v
}

fn vectors<N>(ctx: &mut Ctx)
where
    N: Unsigned + ArrayLen<W> + ArrayLen<f64> + ArrayLen<()> + ArrayLen<u8> + ArrayLen<Tok>,
{
    let n = <N as Unsigned>::to_usize();
    let i = ctx.choose(values(n)) as u64;
    let v = || Vector::<W, N>::generate(|k| value(n, i, k));
    let w = || Vector::<W, N>::generate(|k| value(n, i, n - 1 - k));
    let mut t = T::new(ctx, "vectors", format!("length {} input {}", n, i));
    t.put("generate", v);
    t.put("len", || (v().len(), v().is_empty()));
    t.put("as_slice", || (v().as_slice().to_vec(), v().as_slice_mut().to_vec(), v().as_ref().to_vec(), v().as_mut().to_vec()));
    t.put("iter", || (v().iter().cloned().collect::<Vec<_>>(), v().iter_mut().map(|x| *x).collect::<Vec<_>>()));
    t.put("for &v", || { let mut a = vec![]; for x in v().iter().rev() { a.push(*x) } a });
    for k in indices(n) {
        t.put(&format!("[{}]", k), || v()[k]);
        t.put(&format!("[{}] =", k), || { let mut a = v(); a[k] = W(77); a });
        t.put(&format!("nth({})", k), || { let mut it = v().into_iter(); (it.nth(k), it.len(), it.next(), it.next_back(), it.collect::<Vec<_>>()) });
        t.put(&format!("nth_back({})", k), || { let mut it = v().into_iter(); (it.nth_back(k), it.len(), it.next(), it.next_back(), it.collect::<Vec<_>>()) });
        t.put(&format!("skip({})", k), || v().into_iter().skip(k).collect::<Vec<_>>());
        t.put(&format!("rev skip({})", k), || v().into_iter().rev().skip(k).collect::<Vec<_>>());
        t.put(&format!("collect {}", k), || (0..k.min(n)).map(|x| W(x as i64)).collect::<Vector<W, N>>());
        t.put(&format!("collect {} unhinted", k), || (0..k.min(n)).filter(|_| true).map(|x| W(x as i64)).collect::<Vector<W, N>>());
    }
    t.put("clone, copy, eq", || (v().clone() == v(), v() == w(), v() != w()));
    t.put("default, zero", || (Vector::<u8, N>::default(), Vector::<W, N>::zero(), v().is_zero(), Vector::<W, N>::zero().is_zero()));
    t.put("bounds", || (Vector::<W, N>::min_value(), Vector::<W, N>::max_value()));
    t.put("+", || (v() + w(), v() + &w(), &v() + w(), &v() + &w()));
    t.put("-", || (v() - w(), v() - &w(), &v() - w(), &v() - &w()));
    t.put("assign", || { let mut a = v(); a += w(); a -= v(); a += v(); a *= W(3); a });
    t.put("scalar", || (v() * W(5), v() / W(3)));
    t.put("/=", || { let mut a = v(); a /= W(2); a });
    t.put("/ 0", || v() / W(0));
    t.put("neg", || -v());
    t.put("dot", || v().dot(&w()));
    t.put("sum", || v().sum());
    t.put("clamped", || (v().clamped(W(-1), W(1)), v().clamped(W(0), W(0)), v().clamped(W(-100), W(100))));
    t.put("clamp", || { let mut a = v(); a.clamp(W(-1), W(2)); a });
    t.put("Debug", || format!("{:?} {:#?} {:4?}", v(), w(), v()));
    t.put("size_of", || (std::mem::size_of::<Vector<W, N>>(), std::mem::align_of::<Vector<W, N>>(), std::mem::size_of::<Vector<u8, N>>()));
    t.put("fold", || v().into_iter().fold(W(1), |a, b| a * W(3) + b));
    t.put("count, last", || (v().into_iter().count(), v().into_iter().last(), v().into_iter().size_hint()));
    t.put("zip, step", || (v().into_iter().zip(w()).collect::<Vec<_>>(), v().into_iter().step_by(2).collect::<Vec<_>>()));
    let f = || Vector::<f64, N>::generate(|k| value(n, i % 3, k).0 as f64 / 8.0);
    t.put("norm", || { let x = f(); (x.norm(), x.normalized()) });
    t.put("zero sized", || { let z = Vector::<(), N>::generate(|_| ()); let c = z.clone(); (z == c, z.len(), z.into_iter().count(), c.into_iter().rev().nth(n / 2)) });
    t.put("array round trip", || Vector::<W, N>::new(v().into_inner()));
    // destructors
    let tv = || Vector::<Tok, N>::generate(|k| Tok::new(k as i64));
    t.put("tracked: collect too few", || (1..n).map(|x| Tok::new(x as i64)).collect::<Vector<Tok, N>>().len());
    t.put("tracked: generate stops", || Vector::<Tok, N>::generate(|k| if k == n / 2 { stop(); Tok::new(1) } else { Tok::new(0) }).len());
    t.put("tracked: consume", || { let mut it = tv().into_iter(); it.next(); it.next_back(); it.len() });
    t.put("tracked: clone", || { let a = tv(); let b = a.clone(); drop(a); b.iter().map(|x| x.v()).sum::<i64>() });
    t.put("tracked: inner", || drop(tv().into_inner()));
    t.put("tracked: map", || tv().into_iter().map(|x| x.v()).collect::<Vec<_>>());
    t.registry();
}

fn max_of<N>(ctx: &mut Ctx, n: usize, f: &dyn Fn(&mut T, u64))
where
    N: Unsigned,
{
    let i = ctx.choose(values(n)) as u64;
    let mut t = T::new(ctx, "extremes and chunks", format!("length {} input {}", n, i));
    f(&mut t, i);
}
macro_rules! extremes {
    ($N:ident, $n:expr, $t:ident) => {
        $t.push((stringify!($N), (|ctx: &mut Ctx| max_of::<$N>(ctx, $n, &|t, i| {
            let v = || Vector::<W, $N>::generate(|k| value($n, i, k));
            t.put("max", || v().max());
            t.put("min", || v().min());
            t.put("max_by", || v().max_by(|a, b| b.0.unsigned_abs().cmp(&a.0.unsigned_abs())));
            t.put("min_by", || v().min_by(|a, b| b.0.unsigned_abs().cmp(&a.0.unsigned_abs())));
            t.put("chunks of one", || v().into_chunks::<U1>().map(|c| c[0]).collect::<Vec<_>>());
            t.put("chunks of all", || v().into_chunks::<$N>().map(|c| c).collect::<Vec<_>>());
            for k in indices($n) {
                t.put(&format!("chunks nth({})", k), || { let mut it = v().into_chunks::<U1>(); (it.nth(k), it.len(), it.next_back(), it.nth_back(k), it.len(), it.next()) });
                t.put(&format!("chunks nth_back({})", k), || { let mut it = v().into_chunks::<U1>(); (it.nth_back(k), it.size_hint(), it.next(), it.collect::<Vec<_>>()) });
            }
        })) as fn(&mut Ctx)));
    };
}

/// All histories of a double-ended iterator of `n` items.
fn histories<I, S: Debug>(ctx: &mut Ctx, harness: &str, what: &str, n: usize, depth: usize, mut it: I, show: impl Fn(I::Item) -> S)
where
    I: DoubleEndedIterator + ExactSizeIterator,
{
    let ks = [0, 1, n, usize::MAX];
    let mut h = String::new();
    let mut out = String::new();
    for _ in 0..depth {
        let (name, r): (String, Result<Option<I::Item>, Caught>) = match ctx.choose(6 + 2 * ks.len()) {
            0 => break,
            1 => ("next".into(), catch(|| it.next())),
            2 => ("next_back".into(), catch(|| it.next_back())),
            3 => ("find".into(), { let mut k = 0; catch(|| it.find(|_| { k += 1; k == 2 })) }),
            4 => ("rfind".into(), { let mut k = 0; catch(|| it.rfind(|_| { k += 1; k == 2 })) }),
            5 => ("take(1).last".into(), catch(|| it.by_ref().take(1).last())),
            k if k < 6 + ks.len() => (format!("nth({})", ks[k - 6]), catch(|| it.nth(ks[k - 6]))),
            k => (format!("nth_back({})", ks[k - 6 - ks.len()]), catch(|| it.nth_back(ks[k - 6 - ks.len()]))),
        };
        let _ = write!(h, " {}", name);
        match r {
            Ok(x) => { let _ = write!(out, "{:?}; ", x.map(&show)); }
            Err(_) => { out += "rejected; "; break }
        }
        match catch(|| (it.len(), it.size_hint())) {
            Ok(l) => { let _ = write!(out, "{:?}; ", l); }
            Err(_) => out += "no length; ",
        }
    }
    let mut t = T::new(ctx, harness, format!("{},{}", what, h));
    match t.ctx.choose(6) {
        0 => t.put("dropped", || { let _it = it; out }),
        1 => t.put("the rest", || (out, it.map(|x| format!("{:?}", show(x))).collect::<Vec<_>>())),
        2 => t.put("the rest backwards", || (out, it.rev().map(|x| format!("{:?}", show(x))).collect::<Vec<_>>())),
        3 => t.put("count", || (out, it.count())),
        4 => t.put("last", || (out, it.last().map(show))),
        _ => t.put("from both ends", || {
            let mut a = vec![];
            while let Some(x) = it.next() {
                a.push(format!("{:?}", show(x)));
                a.extend(it.next_back().map(|x| format!("{:?}", show(x))));
            }
            (out, a, it.next().map(&show), it.next_back().map(&show))
        }),
    }
}
fn vec_histories<N: Unsigned + ArrayLen<Tok>>(ctx: &mut Ctx) {
    tok::reset();
    let n = <N as Unsigned>::to_usize();
    let depth = if ctx_thorough() { 4 } else { 3 };
    let v = Vector::<Tok, N>::generate(|i| Tok::new(i as i64));
    histories(ctx, "iterator histories", &format!("into_iter of {}", n), n, depth, v.into_iter(), |x| x.v());
}
fn mat_histories<R, C>(ctx: &mut Ctx)
where
    R: Unsigned + ArrayLen<Vector<u8, C>> + ArrayLen<u8>,
    C: Unsigned + ArrayLen<u8> + ArrayLen<Vector<u8, R>>,
{
    let (r, c) = (<R as Unsigned>::to_usize(), <C as Unsigned>::to_usize());
    let m = Matrix::<u8, R, C>::generate(|(i, j)| (16 * i + j) as u8);
    let depth = if ctx_thorough() { 3 } else { 2 };
    let name = format!("{}x{}", r, c);
    let h = "iterator histories";
    match ctx.choose(5) {
        0 => histories(ctx, h, &format!("rows of {}", name), r, depth, m.rows_iter(), |x| x.iter().cloned().collect::<Vec<_>>()),
        1 => histories(ctx, h, &format!("columns of {}", name), c, depth, m.cols_iter(), |x| x.iter().cloned().collect::<Vec<_>>()),
        2 => histories(ctx, h, &format!("row references of {}", name), r, depth, m.rows_iter_ref(), |x| x.iter().cloned().collect::<Vec<_>>()),
        3 => histories(ctx, h, &format!("column references of {}", name), c, depth, m.cols_iter_ref(), |x| (x.len(), x.rev().cloned().collect::<Vec<_>>())),
        _ => {
            if c > 0 {
                let k = ctx.choose(c);
                let it = m.cols_iter_ref().nth(k).expect("an existing column");
                histories(ctx, h, &format!("entries of column {} of {}", k, name), r, depth, it, |x| *x);
            }
        }
    }
}
macro_rules! chunk_histories {
    ($t:ident; $($N:ident / $I:ident),*) => { $(
        $t.push((concat!(stringify!($N), "/", stringify!($I)), (|ctx: &mut Ctx| {
            tok::reset();
            let v = Vector::<Tok, $N>::generate(|i| Tok::new(i as i64));
            let depth = if ctx_thorough() { 4 } else { 3 };
            histories(ctx, "iterator histories", concat!("chunks ", stringify!($N), "/", stringify!($I)), <$N>::to_usize() / <$I>::to_usize(), depth,
                      v.into_chunks::<$I>(), |c| c.into_iter().map(|x| x.v()).collect::<Vec<_>>());
        }) as fn(&mut Ctx)));
    )* };
}
/// Every state of a chunk iterator of every length, with what it says about its length, and every next distance.
fn chunk_states<N, I>(ctx: &mut Ctx)
where
    N: ArrayLen<Tok> + std::ops::Rem<I>,
    I: ArrayLen<Tok>,
    rowcol::typenum::Mod<N, I>: rowcol::typenum::Same<U0>,
{
    let (n, k) = (N::to_usize(), I::to_usize());
    let c = n / k;
    let f = ctx.choose(c + 1);
    let b = ctx.choose(c - f + 1);
    let mut t = T::new(ctx, "chunk states", format!("{} in chunks of {}, {} from the front, {} from the back", n, k, f, b));
    let at = || {
        let mut it = Vector::<Tok, N>::generate(|i| Tok::new(i as i64)).into_chunks::<I>();
        for _ in 0..f { it.next(); }
        for _ in 0..b { it.next_back(); }
        it
    };
    let show = |v: Vector<Tok, I>| v.into_iter().map(|x| x.v()).collect::<Vec<_>>();
    t.put("length", || { let it = at(); (it.len(), it.size_hint()) });
    t.put("count", || at().count());
    t.put("last", || at().last().map(show));
    t.put("rest", || at().map(show).collect::<Vec<_>>());
    t.put("rest backwards", || at().rev().map(show).collect::<Vec<_>>());
    for d in [0, 1, c - f - b, usize::MAX / 2 + 1, usize::MAX] {
        t.put(&format!("nth({})", d), || { let mut it = at(); (it.nth(d).map(show), it.len(), it.next().map(show)) });
        t.put(&format!("nth_back({})", d), || { let mut it = at(); (it.nth_back(d).map(show), it.len(), it.next_back().map(show)) });
    }
    t.registry();
}
/// Every state of the matrix iterators on larger shapes.
fn matrix_states<R, C>(ctx: &mut Ctx)
where
    R: Unsigned + ArrayLen<Vector<Tok, C>> + ArrayLen<Tok>,
    C: Unsigned + ArrayLen<Tok> + ArrayLen<Vector<Tok, R>>,
{
    let (r, c) = (<R as Unsigned>::to_usize(), <C as Unsigned>::to_usize());
    let kind = ctx.choose(5);
    let n = [r, c, r, c, r][kind];
    // the front position, then how many are left
    let pos = |ctx: &mut Ctx, m: usize| {
        let mut v = vec![0, 1, 2, m / 2, m.saturating_sub(1), m];
        v.retain(|x| *x <= m);
        v.sort();
        v.dedup();
        v[ctx.choose(v.len())]
    };
    let f = pos(ctx, n);
    let b = pos(ctx, n - f);
    let col = if kind == 4 { pos(ctx, c) } else { 0 };
    let mut t = T::new(ctx, "matrix iterator states", format!("{}x{}, kind {}, {} from the front, {} from the back, column {}", r, c, kind, f, b, col));
    let k = Matrix::<Tok, R, C>::generate(|(i, j)| Tok::new((100 * i + j) as i64));
    macro_rules! run {
        ($at:expr, $show:expr) => {{
            t.put("length", || { let it = $at; (it.len(), it.size_hint()) });
            t.put("count", || $at.count());
            t.put("last", || $at.last().map($show));
            t.put("rest", || $at.map($show).collect::<Vec<_>>());
            t.put("rest backwards", || $at.rev().map($show).collect::<Vec<_>>());
            for d in [0, 1, n - f - b, usize::MAX / 2 + 1, usize::MAX] {
                t.put(&format!("nth({})", d), || { let mut it = $at; (it.nth(d).map($show), it.len(), it.next().map($show)) });
                t.put(&format!("nth_back({})", d), || { let mut it = $at; (it.nth_back(d).map($show), it.len(), it.next_back().map($show)) });
            }
        }};
    }
    macro_rules! adv {
        ($it:expr) => {{
            let mut it = $it;
            for _ in 0..f { it.next(); }
            for _ in 0..b { it.next_back(); }
            it
        }};
    }
    match kind {
        0 => run!(adv!(k.rows_iter()), |v: Vector<Tok, C>| v.into_iter().map(|x| x.v()).collect::<Vec<_>>()),
        1 => run!(adv!(k.cols_iter()), |v: Vector<Tok, R>| v.into_iter().map(|x| x.v()).collect::<Vec<_>>()),
        2 => run!(adv!(k.rows_iter_ref()), |v: &[Tok]| v.iter().map(|x| x.v()).collect::<Vec<_>>()),
        3 => run!(adv!(k.cols_iter_ref()), |v: rowcol::matrix::iter::ColsIterRefInner<_, _, _>| (v.len(), v.map(|x: &Tok| x.v()).collect::<Vec<_>>())),
        _ => {
            if col < c {
                run!(adv!(k.cols_iter_ref().nth(col).expect("an existing column")), |x: &Tok| x.v())
            }
        }
    }
    t.registry();
}
static THOROUGH: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
fn ctx_thorough() -> bool {
    THOROUGH.load(std::sync::atomic::Ordering::Relaxed)
}

fn matrices<R, C>(ctx: &mut Ctx)
where
    R: Unsigned + ArrayLen<Vector<W, C>> + ArrayLen<W> + ArrayLen<Vector<Complex<i32>, C>> + ArrayLen<Vector<W, R>> + ArrayLen<Vector<f64, C>> + ArrayLen<Vector<Tok, C>>
        + ArrayLen<Vector<(), C>>,
    C: Unsigned + ArrayLen<W> + ArrayLen<Vector<W, R>> + ArrayLen<Complex<i32>> + ArrayLen<f64> + ArrayLen<Tok> + ArrayLen<()>,
{
    let (r, c) = (<R as Unsigned>::to_usize(), <C as Unsigned>::to_usize());
    let n = r * c;
    let i = ctx.choose(values(n)) as u64;
    let m = || Matrix::<W, R, C>::generate(|(a, b)| value(n, i, a * c + b));
    let w = || Matrix::<W, R, C>::generate(|(a, b)| value(n, i, n - 1 - (a * c + b)));
    let u = || Matrix::<W, C, R>::generate(|(a, b)| value(n, i, b * c + a) + W(1));
    let v = || Vector::<W, C>::generate(|k| W(k as i64 - 1));
    let mut t = T::new(ctx, "matrices", format!("shape {}x{} input {}", r, c, i));
    t.put("generate", m);
    t.put("dim", || (m().dim(), m().rows(), m().cols(), std::mem::size_of::<Matrix<W, R, C>>()));
    for a in indices(r) {
        for b in indices(c) {
            t.put(&format!("[({}, {})]", a, b), || m()[(a, b)]);
            t.put(&format!("[({}, {})] =", a, b), || { let mut x = m(); x[(a, b)] = W(9); x });
        }
    }
    t.put("map", || (m().map(|_, x| x * W(2)), m().map(|(a, b), _| W((a * 100 + b) as i64))));
    t.put("all, any", || {
        let (mut a, mut b) = (vec![], vec![]);
        (m().all(|p, x| { a.push(p); x.0 < 3 }), m().any(|p, x| { b.push(p); x.0 == 3 }), a, b)
    });
    t.put("transposed", || m().transposed());
    t.put("clone, eq", || (m().clone() == m(), m() == w(), m() != w()));
    t.put("default, zero", || (Matrix::<f64, R, C>::default(), Matrix::<W, R, C>::zero(), m().is_zero(), Matrix::<W, R, C>::zero().is_zero()));
    t.put("bounds", || (Matrix::<W, R, C>::min_value(), Matrix::<W, R, C>::max_value()));
    t.put("+", || (m() + w(), m() + &w(), &m() + w(), &m() + &w()));
    t.put("-", || (m() - w(), m() - &w(), &m() - w(), &m() - &w()));
    t.put("assign", || { let mut a = m(); a += w(); a -= m(); a += m(); a *= W(3); a });
    t.put("scalar", || (m() * W(5), m() * &W(5), m() / W(3), m() / &W(3)));
    t.put("/=", || { let mut a = m(); a /= W(2); a });
    t.put("/ 0", || m() / W(0));
    t.put("neg", || -m());
    t.put("product", || (m() * u(), m() * &u(), &m() * u(), &m() * &u()));
    t.put("matrix * vector", || (m() * v(), m() * &v()));
    t.put("sum", || m().sum());
    t.put("clamped", || (m().clamped(W(-1), W(1)), m().clamped(W(0), W(0))));
    t.put("clamp", || { let mut a = m(); a.clamp(W(-1), W(2)); a });
    t.put("Debug", || format!("{:?} {:#?} {:4?}", m(), w(), m()));
    t.put("conjugate", || Matrix::<Complex<i32>, R, C>::generate(|(a, b)| Complex::new(a as i32, b as i32)).conjugate());
    t.put("approx", || {
        let f = |d: f64| Matrix::<f64, R, C>::generate(|(a, b)| value(n, i % 3, a * c + b).0 as f64 + d);
        use approx::ApproxEq;
        (f(0.0).relative_eq(&f(1e-3), 1e-2, 1e-2), f(0.0).relative_eq(&f(1e-1), 1e-2, 1e-2), f(1.0).ulps_eq(&f(1.0), 0.0, 0), f(1.0).ulps_ne(&f(1.5), 0.0, 4))
    });
    t.put("zero sized", || { let z = Matrix::<(), R, C>::generate(|_| ()); let k = z.clone(); (z == k, z.dim(), z.rows_iter().count(), z.map(|_, x| x) == k) });
    t.put("tracked: map", || Matrix::<Tok, R, C>::generate(|(a, b)| Tok::new((a + b) as i64)).map(|_, x| W(x.v())));
    t.put("tracked: clone", || { let a = Matrix::<Tok, R, C>::generate(|(a, b)| Tok::new((a + b) as i64)); let b = a.clone(); drop(a); b.sum().v() });
    t.put("tracked: generate stops", || Matrix::<Tok, R, C>::generate(|(a, b)| if a == r / 2 && b == c / 2 { stop(); Tok::new(1) } else { Tok::new(0) }).dim());
    t.registry();
}

/// Field operations on f64 (exactly representable in the small cases; the same machine operations in every build).
fn field(t: &mut T, i: u64) {
    macro_rules! sq {
        ($($N:ident $n:expr),*) => { $( {
            let m = || Matrix::<f64, $N, $N>::generate(|(a, b)| pattern($n, i, a, b) as f64);
            t.put(concat!("determinant ", $n), || m().determinant());
            t.put(concat!("inverse ", $n), || m().inverse());
        } )* };
    }
    macro_rules! cof {
        ($($N:ident $n:expr),*) => { $( {
            let m = || Matrix::<f64, $N, $N>::generate(|(a, b)| pattern($n, i, a, b) as f64);
            for a in indices($n) {
                for b in indices($n) {
                    t.put(&format!("cofactor {} at ({}, {})", $n, a, b), || m().cofactor((a, b)));
                }
            }
        } )* };
    }
    sq!(U1 1, U2 2, U3 3, U4 4, U5 5, U6 6);
    cof!(U2 2, U3 3, U4 4, U5 5);
}
/// Entry (a, b) of input `i` of the square matrices.
fn pattern(n: usize, i: u64, a: usize, b: usize) -> i64 {
    let k = a * n + b;
    if n <= 2 {
        return [-1, 0, 2, 3][(i / 4u64.pow(k as u32) % 4) as usize];
    }
    match i % 8 {
        0 => ((a * 7 + b * 3 + a * b) % 11) as i64 - 5,
        1 => (a == b) as i64 * (a as i64 + 1),
        2 => ((a + 1) % n == b) as i64 * 2,
        3 => ((a + 1) * (b + 2)) as i64,
        4 => if a + b >= n - 1 { 1 + (a * b) as i64 } else { 0 },
        5 => if a == 0 { 0 } else { (k as i64 * 5) % 7 - 3 },
        6 => if k == 0 { 0 } else { 1 + (a as i64 - b as i64).abs() },
        _ => ((i / 8) >> (k % 16) & 1) as i64,
    }
}
fn field_ops(ctx: &mut Ctx) {
    let i = ctx.choose(256) as u64;
    let mut t = T::new(ctx, "determinants, cofactors and inverses", format!("input {}", i));
    field(&mut t, i);
}
macro_rules! squares {
    ($t:ident; $($N:ident $n:expr),*) => { $(
        $t.push((stringify!($N), (|ctx: &mut Ctx| {
            let i = ctx.choose(16) as u64;
            let mut t = T::new(ctx, "square matrices", format!("size {} input {}", $n, i));
            let m = || Matrix::<W, $N, $N>::generate(|(a, b)| W(pattern($n, i, a, b)));
            for e in [0, 1, 2, 3, 4, 5, 7, 8, 31, 32, 1 << 31, (1 << 32) - 1, 1 << 32, usize::MAX / 2 + 1, usize::MAX - 1, usize::MAX] {
                t.put(&format!("pow({})", e), || m().pow(e));
            }
            t.put("identity", || (Matrix::<W, $N, $N>::identity(), <Matrix<W, $N, $N> as One>::one()));
            t.put("transpose", || { let mut a = m(); a.transpose(); a });
            t.put("*=", || { let mut a = m(); a *= m(); a });
            t.put("max", || (m().max(), m().min()));
            t.put("max_by", || (m().max_by(|a, b| b.0.cmp(&a.0)), m().min_by(|a, b| b.0.unsigned_abs().cmp(&a.0.unsigned_abs()))));
            t.put("diag", || Matrix::<W, $N, $N>::diag(std::array::from_fn::<_, $n, _>(|k| W(k as i64 + 1))));
        }) as fn(&mut Ctx)));
    )* };
}
/// Reshaping, products of fixed shapes, the cross product, compile-time indices, nested vectors.
fn fixed(ctx: &mut Ctx) {
    let i = ctx.choose(27) as u64;
    let mut t = T::new(ctx, "fixed shapes", format!("input {}", i));
    let v3 = || Vector::<W, U3>::generate(|k| value(3, i, k));
    t.put("cross", || v3().cross(&Vector::generate(|k| W(k as i64 + 2))));
    t.put("reshape 3x4", || Matrix::<W, U3, U4>::from(Vector::<W, U12>::generate(|k| value(12, i % 4, k))));
    t.put("reshape 1x6, 6x1, 2x3", || {
        let v = || Vector::<W, U6>::generate(|k| value(6, i % 4, k));
        (Matrix::<W, U1, U6>::from(v()), Matrix::<W, U6, U1>::from(v()), Matrix::<W, U2, U3>::from(v()))
    });
    t.put("static indices", || {
        let v = v3();
        let m = Matrix::<W, U2, U3>::generate(|(a, b)| value(6, i % 4, a * 3 + b));
        (v[U0::new()], v[U2::new()], m[(U0::new(), U0::new())], m[(U1::new(), U2::new())], m[(U1::new(), U0::new())], m[(U0::new(), U2::new())])
    });
    t.put("static writes", || {
        let mut v = v3();
        let mut m = Matrix::<W, U2, U3>::generate(|(a, b)| value(6, i % 4, a * 3 + b));
        v[U0::new()] = W(1);
        v[U2::new()] = W(2);
        m[(U0::new(), U0::new())] = W(3);
        m[(U1::new(), U2::new())] = W(4);
        m[(U1::new(), U0::new())] = W(5);
        m[(U0::new(), U2::new())] = W(6);
        (v, m)
    });
    t.put("nested", || Vector::<Vector<W, U2>, U3>::generate(|a| Vector::generate(|b| value(6, i % 4, a * 2 + b))).into_iter().rev().map(|x| x.sum()).collect::<Vec<_>>());
    t.put("vector!, matrix!", || (vector![1, 2, 3], matrix![[1, 2], [3, 4], [5, 6]]));
    t.put("new", || (Vector::<i32, U4>::new([1, 2, 3, 4]), Matrix::<i32, U2, U2>::new([[1, 2], [3, 4]])));
    t.put("diag 2x4, 4x2", || (Matrix::<W, U2, U4>::diag([W(1), W(2)]), Matrix::<W, U4, U2>::diag([W(1), W(2)])));
}

struct Fail(usize);
impl fmt::Write for Fail {
    fn write_str(&mut self, _: &str) -> fmt::Result {
        if self.0 == 0 {
            return Err(fmt::Error);
        }
        self.0 -= 1;
        Ok(())
    }
}
/// Text output; matrix Display exists with the standard library only.
fn text(ctx: &mut Ctx) {
    const TEXTS: [&str; 6] = ["", "a", "bcd", "e\nfg", "h\ni\nj", "k l m n"];
    struct Text(&'static str);
    impl fmt::Debug for Text {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            f.pad(self.0)
        }
    }
    impl fmt::Display for Text {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            f.pad(self.0)
        }
    }
    let e = [ctx.choose(6), ctx.choose(6), ctx.choose(6), ctx.choose(6)];
    let m = || Matrix::<Text, U2, U2>::generate(|(a, b)| Text(TEXTS[e[2 * a + b]]));
    let r = || Matrix::<Text, U1, U4>::generate(|(_, b)| Text(TEXTS[e[b]]));
    let mut t = T::new(ctx, "text", format!("entries {:?}", e));
    t.put("Debug", || (format!("{:?}", m()), format!("{:3?}", r()), format!("{:#?}", m())));
    t.put("Debug into a failing sink", || (0..12).map(|k| write!(Fail(k), "{:?}", m()).is_err()).collect::<Vec<_>>());
    t.prefix = format!("only {}", t.prefix);
    #[cfg(feature = "std")]
    {
        t.put("Display", || (format!("{}", m()), format!("{:5}", r()), format!("{:<2.1}", m())));
        t.put("Display into a failing sink", || (0..40).map(|k| write!(Fail(k), "{}", m()).is_err()).collect::<Vec<_>>());
    }
}

fn main() {
    let ck = Check::new("C20");
    THOROUGH.store(ck.thorough, std::sync::atomic::Ordering::Relaxed);
    macro_rules! go {
        ($name:expr, $t:expr, $b:expr) => {{
            let t: Table = $t;
            ck.bound($name, $b);
            ck.explore($name, |ctx| {
                let (n, f) = t[ctx.choose(t.len())];
                log!(ctx, "instance {}", n);
                f(ctx)
            });
        }};
    }
    let mut vt: Table = vec![];
    for_lens!(push_len, vt, vectors);
    go!("vectors", vt, "about 45 operations and 14 indices on every length 0..=32, all entries from {-2, 0, 3} up to length 4, four patterns beyond");
    let mut et: Table = vec![];
    for_pos_lens!(extremes, et);
    go!("extremes and chunks", et, "every length 1..=32, same inputs");
    let mut ht: Table = vec![];
    for_tiny_lens!(push_len, ht, vec_histories);
    for_small_shapes!(push_shape, ht, mat_histories);
    chunk_histories!(ht; U1 / U1, U2 / U1, U4 / U1, U4 / U2, U6 / U2, U6 / U3, U4 / U4);
    go!("iterator histories", ht, "vectors of length 0..=4, five matrix iterators on shapes up to 4x4, seven chunkings; 3 (matrices 2) of 14 operations, 6 ends");
    let mut kt: Table = vec![];
    for_small_chunks!(push_shape, kt, chunk_states);
    for_large_chunks!(push_shape, kt, chunk_states);
    go!("chunk states", kt, "lengths 0..=10, 12, 16, 25, 30..=32 with every divisor, every (front, back), 5 distances from either side");
    let mut jt: Table = vec![];
    macro_rules! shapes { ($($R:ident $C:ident),*) => { $( push_shape!($R, $C, jt, matrix_states); )* }; }
    shapes!(U10 U3, U3 U10, U16 U16, U17 U2, U2 U17, U31 U5, U5 U31, U32 U32, U32 U1, U1 U32, U0 U32, U32 U0, U13 U13, U24 U8, U8 U24, U31 U31);
    go!("matrix iterator states", jt, "16 larger shapes up to 32x32, 36 states of the five iterators, 5 distances from either side");
    let mut mt: Table = vec![];
    for_small_shapes!(push_shape, mt, matrices);
    mt.push(("5x5", matrices::<U5, U5>));
    mt.push(("1x9", matrices::<U1, U9>));
    mt.push(("9x1", matrices::<U9, U1>));
    mt.push(("2x32", matrices::<U2, U32>));
    mt.push(("17x3", matrices::<U17, U3>));
    go!("matrices", mt, "about 35 operations and all pairs of boundary indices on all shapes up to 4x4 and five larger ones");
    let mut st: Table = vec![];
    squares!(st; U1 1, U2 2, U3 3, U4 4, U5 5, U8 8);
    go!("square matrices", st, "16 inputs of sizes 1..=5 and 8, 16 exponents up to usize::MAX");
    go!("determinants, cofactors and inverses", vec![("", field_ops as fn(&mut Ctx))], "256 inputs of sizes 1..=6, cofactors of sizes 2..=5 at boundary positions");
    go!("fixed shapes", vec![("", fixed as fn(&mut Ctx))], "27 inputs");
    go!("text", vec![("", text as fn(&mut Ctx))], "all assignments of six ASCII texts to four entries, in 2x2 and 1x4");
    if let Ok(p) = std::env::var("MC_TRANSCRIPT") {
        let mut l = std::mem::take(&mut *LINES.lock().unwrap());
        l.sort();
        // samples are executed twice
        l.dedup();
        let mut s = String::new();
        for w in l.windows(2) {
            assert!(w[0].0 != w[1].0, "two transcript entries called {}", w[0].0);
        }
        for (k, v) in &l {
            // one line per entry
            let _ = writeln!(s, "{}\t{}", k.replace('\n', "\\n"), v.replace('\n', "\\n"));
        }
        std::fs::write(p, s).expect("the transcript cannot be written");
    }
    ck.finish();
}
