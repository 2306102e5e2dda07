//! C17: text output against a reference renderer, with every failure point of the sink.
use mc::kinds::{self, *};
use mc::shapes::*;
use mc::*;
use rowcol::prelude::*;
use rowcol::typenum::Unsigned;
use rowcol::vector::ArrayLen;
use rowcol_mc as mc;
use std::fmt::{self, Debug, Display, Write};

/// An entry with a text of its own.
#[derive(Clone)]
struct Txt(String);
impl Display for Txt {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl Debug for Txt {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}

const ASCII: &[&str] = &["", "a", "bb", "cccc", "d e", " ", "f\ngg", "hhh\ni", "\n", "j\n", "k\n\nllllll", "\n\nm", "n\r\noo"];
const WIDE: &[&str] = &["é", "e\u{301}", "漢字", "漢\nab", "\u{200b}", "⎡1⎤\n⎣2⎦", "\u{7f}p", "\t"];

fn texts(wide: bool) -> Vec<&'static str> {
    let mut v = ASCII.to_vec();
    if wide {
        v.extend(WIDE);
    }
    v
}

#[cfg(feature = "unicode_width")]
fn width(s: &str) -> usize {
    unicode_width::UnicodeWidthStr::width(s)
}
#[cfg(not(feature = "unicode_width"))]
fn width(s: &str) -> usize {
    s.len()
}

/// The grid that Display promises, without its brackets: one string per output line.
fn grid(r: usize, c: usize, t: &dyn Fn(usize, usize) -> String) -> Vec<String> {
    let lines = |i, j| -> Vec<String> { t(i, j).lines().map(|s| s.to_string()).collect() };
    let wide = |l: &[String]| l.iter().map(|s| width(s)).max().unwrap_or(0);
    let col: Vec<usize> = (0..c).map(|j| (0..r).map(|i| wide(&lines(i, j))).max().unwrap_or(0)).collect();
    let mut out = vec![];
    for i in 0..r {
        let h = (0..c).map(|j| lines(i, j).len()).max().unwrap_or(1).max(1);
        for n in 0..h {
            let mut s = String::new();
            for j in 0..c {
                if j > 0 {
                    s.push(' ');
                }
                let l = lines(i, j);
                let line = l.get(n).cloned().unwrap_or_default();
                let left = (col[j] - wide(&l)) / 2;
                s.push_str(&" ".repeat(left));
                s.push_str(&line);
                s.push_str(&" ".repeat(col[j] - left - width(&line)));
            }
            out.push(s);
        }
    }
    out
}
fn check_grid(out: &str, want: &[String]) -> Result<(), String> {
    let out = out.strip_suffix('\n').unwrap_or(out);
    if want.is_empty() {
        return if out.is_empty() { Ok(()) } else { Err("something is printed for a matrix without rows".into()) };
    }
    let got: Vec<&str> = out.split('\n').collect();
    if got.len() != want.len() {
        return Err(format!("{} lines instead of {}", got.len(), want.len()));
    }
    let n = want.len();
    for (k, (g, w)) in got.iter().zip(want).enumerate() {
        let (l, r) = if n == 1 {
            // which brackets a grid of a single line has is not specified
            (g.chars().next().unwrap_or('?'), g.chars().last().unwrap_or('?'))
        } else if k == 0 {
            ('⎡', '⎤')
        } else if k + 1 == n {
            ('⎣', '⎦')
        } else {
            ('⎢', '⎥')
        };
        let full = format!("{}{}{}", l, w, r);
        if *g != full {
            return Err(format!("line {} is {:?} instead of {:?}", k, g, full));
        }
    }
    Ok(())
}
fn list(n: usize, t: &dyn Fn(usize) -> String) -> String {
    format!("[{}]", (0..n).map(t).collect::<Vec<_>>().join(", "))
}

/// Counts the writes; fails the `fail`-th one only.
struct Sink {
    text: String,
    writes: usize,
    fail: usize,
}
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.writes += 1;
        if self.writes == self.fail {
            return Err(fmt::Error);
        }
        self.text.push_str(s);
        Ok(())
    }
}

/// Formats `x` once without and once with every possible single failure (spread evenly if there are many writes).
fn formatted(ctx: &mut Ctx, what: &str, x: &dyn Fn(&mut Sink) -> fmt::Result, all: bool) -> String {
    let run = |fail| {
        let mut s = Sink { text: String::new(), writes: 0, fail };
        match catch(|| x(&mut s)) {
            Ok(r) => (r, s),
            Err(e) => fail_(format!("{} panics{}: {:?}", what, if fail > 0 { format!(" when write {} fails", fail) } else { String::new() }, e)),
        }
    };
    let (r, s) = run(0);
    ensure!(r.is_ok(), "{} fails although the sink does not", what);
    ctx.step();
    let step = if all { 1 } else { 1 + s.writes / 40 };
    let mut k = 1;
    while k <= s.writes {
        let (r, _) = run(k);
        ctx.step();
        ensure!(r.is_err(), "{}: the failure of write {} of {} is not returned", what, k, s.writes);
        k += step;
    }
    if step > 1 {
        ensure!(run(s.writes).0.is_err(), "{}: the failure of the last write is not returned", what);
    }
    s.text
}
fn fail_(s: String) -> ! {
    fail(s)
}

/// Texts of the entries: every assignment for up to `full` entries, one special entry among plain ones above.
fn assign(ctx: &mut Ctx, n: usize, full: usize, wide: bool) -> Vec<String> {
    let a = texts(wide);
    if n <= full {
        return (0..n).map(|_| ctx.pick(&a).to_string()).collect();
    }
    let p = ctx.choose(n);
    let s = *ctx.pick(&a);
    let background = ctx.choose(2);
    (0..n).map(|i| if i == p { s.to_string() } else if background == 0 { "7".into() } else { format!("{}", (i * 7919) % 10usize.pow(1 + i as u32 % 4)) }).collect()
}

fn debug_vector<N>(ctx: &mut Ctx)
where
    N: Unsigned + ArrayLen<Txt>,
{
    let n = <N as Unsigned>::to_usize();
    let t = assign(ctx, n, 2, true);
    let v = Vector::<Txt, N>::generate(|i| Txt(t[i].clone()));
    let out = formatted(ctx, "Debug of a vector", &|s| write!(s, "{:?}", v), true);
    let want = list(n, &|i| t[i].clone());
    let body = &out[out.find('[').unwrap_or(0)..];
    ensure!(body == want, "Debug of the vector {:?} is {:?}, expected {:?}", t, out, want);
    let out = formatted(ctx, "alternate Debug of a vector", &|s| write!(s, "{:#?}", v), true);
    in_order(&out, &t);
    ctx.outcome(&out);
    log!(ctx, "{:?}", out);
}
/// Each text (or its lines, as the alternate form indents) appears once and in order, ignoring white space.
fn in_order(out: &str, t: &[String]) {
    let squeeze = |s: &str| s.chars().filter(|c| !c.is_whitespace() && *c != ',' && *c != '[' && *c != ']').collect::<String>();
    let body = out.find('[').map_or(out, |p| &out[p..]);
    let (a, b) = (squeeze(body), squeeze(&t.concat()));
    ensure!(a == b, "the alternate Debug output {:?} does not consist of the entries {:?} in order", out, t);
}

fn debug_matrix<R, C>(ctx: &mut Ctx)
where
    R: Unsigned + ArrayLen<Vector<Txt, C>>,
    C: Unsigned + ArrayLen<Txt>,
{
    let (r, c) = (<R as Unsigned>::to_usize(), <C as Unsigned>::to_usize());
    let t = assign(ctx, r * c, 2, true);
    let m = Matrix::<Txt, R, C>::generate(|(i, j)| Txt(t[i * c + j].clone()));
    let out = formatted(ctx, "Debug of a matrix", &|s| write!(s, "{:?}", m), r * c <= 16);
    let want = list(r, &|i| list(c, &|j| t[i * c + j].clone()));
    let body = &out[out.find('[').unwrap_or(0)..];
    ensure!(body == want, "Debug of the {}x{} matrix {:?} is {:?}, expected {:?}", r, c, t, out, want);
    let out = formatted(ctx, "alternate Debug of a matrix", &|s| write!(s, "{:#?}", m), r * c <= 16);
    in_order(&out, &t);
    ctx.outcome(&out);
    log!(ctx, "{:?}", out);
}

fn display<R, C>(ctx: &mut Ctx)
where
    R: Unsigned + ArrayLen<Vector<Txt, C>>,
    C: Unsigned + ArrayLen<Txt>,
    Matrix<Txt, R, C>: Display,
{
    display_with::<R, C>(ctx, 3)
}
fn display_with<R, C>(ctx: &mut Ctx, full: usize)
where
    R: Unsigned + ArrayLen<Vector<Txt, C>>,
    C: Unsigned + ArrayLen<Txt>,
    Matrix<Txt, R, C>: Display,
{
    let (r, c) = (<R as Unsigned>::to_usize(), <C as Unsigned>::to_usize());
    let t = assign(ctx, r * c, full, cfg!(feature = "unicode_width"));
    let m = Matrix::<Txt, R, C>::generate(|(i, j)| Txt(t[i * c + j].clone()));
    let out = formatted(ctx, "Display of a matrix", &|s| write!(s, "{}", m), r * c <= 16);
    let want = grid(r, c, &|i, j| t[i * c + j].clone());
    if let Err(e) = check_grid(&out, &want) {
        fail(format!("Display of the {}x{} matrix {:?}: {}\n{}", r, c, t, e, out));
    }
    ctx.outcome(&out);
    log!(ctx, "{:?} -> {:?}", t, out);
}
/// Four entries: every assignment of a smaller alphabet.
fn display4<R, C>(ctx: &mut Ctx)
where
    R: Unsigned + ArrayLen<Vector<Txt, C>>,
    C: Unsigned + ArrayLen<Txt>,
    Matrix<Txt, R, C>: Display,
{
    display_with::<R, C>(ctx, 4)
}
/// Texts that are not ASCII, when their width is not defined by this configuration: only totality and order.
#[cfg(all(feature = "std", not(feature = "unicode_width")))]
fn display_loose<R, C>(ctx: &mut Ctx)
where
    R: Unsigned + ArrayLen<Vector<Txt, C>>,
    C: Unsigned + ArrayLen<Txt>,
    Matrix<Txt, R, C>: Display,
{
    let (r, c) = (<R as Unsigned>::to_usize(), <C as Unsigned>::to_usize());
    let t = assign(ctx, r * c, 2, true);
    let m = Matrix::<Txt, R, C>::generate(|(i, j)| Txt(t[i * c + j].clone()));
    let out = formatted(ctx, "Display of a matrix", &|s| write!(s, "{}", m), r * c <= 16);
    for x in &t {
        ensure!(x.lines().all(|l| out.contains(l)), "Display of {:?} does not contain {:?}: {:?}", t, x, out);
    }
    ctx.outcome(&out);
    log!(ctx, "{:?} -> {:?}", t, out);
}

/// Every kind of element that generic code can tell apart.
fn kind_length<Z: Slot, N: ArrayLen<kinds::F<Z>>>(ctx: &mut Ctx) {
    kinds::reset();
    let n = <N as Unsigned>::to_usize();
    let l = ctx.choose(3);
    ctx.step();
    let out = format!("{:?}", Vector::<kinds::F<Z>, N>::generate(|i| kinds::F::new(value(l, i))));
    let want = list(n, &|i| value(l, i).to_string());
    ensure_eq!(&out[out.find('[').unwrap_or(0)..], want, "Debug of a vector");
    kinds::settle("end");
}
fn kind_shape<Z: Slot, R, C>(ctx: &mut Ctx)
where
    R: Unsigned + ArrayLen<Vector<kinds::F<Z>, C>>,
    C: Unsigned + ArrayLen<kinds::F<Z>>,
{
    kinds::reset();
    let (r, c) = (<R as Unsigned>::to_usize(), <C as Unsigned>::to_usize());
    let l = ctx.choose(3);
    ctx.step();
    let m = Matrix::<kinds::F<Z>, R, C>::generate(|(i, j)| kinds::F::new(value(l, i * c + j)));
    let out = format!("{:?}", m);
    let want = list(r, &|i| list(c, &|j| value(l, i * c + j).to_string()));
    ensure_eq!(&out[out.find('[').unwrap_or(0)..], want, "Debug of a matrix");
    drop(m);
    kinds::settle("end");
}
#[cfg(feature = "std")]
fn kind_display<Z: Slot, R, C>(ctx: &mut Ctx)
where
    R: Unsigned + ArrayLen<Vector<kinds::F<Z>, C>>,
    C: Unsigned + ArrayLen<kinds::F<Z>>,
    Matrix<kinds::F<Z>, R, C>: Display,
{
    kinds::reset();
    let (r, c) = (<R as Unsigned>::to_usize(), <C as Unsigned>::to_usize());
    let l = ctx.choose(3);
    ctx.step();
    let m = Matrix::<kinds::F<Z>, R, C>::generate(|(i, j)| kinds::F::new(value(l, i * c + j)));
    let out = m.to_string();
    let want = grid(r, c, &|i, j| value(l, i * c + j).to_string());
    if let Err(e) = check_grid(&out, &want) {
        fail(format!("Display of a {}x{} matrix of numbers: {}\n{}", r, c, e, out));
    }
    drop(m);
    kinds::settle("end");
}

fn main() {
    let ck = Check::new("C17");
    macro_rules! table {
        ($name:expr, $lists:ident, $push:ident, $f:ident, $b:expr) => {{
            let mut t: Table = vec![];
            $lists!($push, t, $f);
            ck.bound($name, $b);
            explore_table(&ck, $name, &t);
        }};
    }
    ck.bound("sink", "every single write of the output fails in turn (beyond 16 entries: every 40th part and the last one)");
    table!("Debug of vectors", for_lens, push_len, debug_vector, "every length 0..=32; 21 texts in every combination up to 2 elements, at every position above; {:?} and {:#?}");
    table!("Debug of matrices", for_mid_shapes, push_shape, debug_matrix, "shapes 0x0..9x9; 21 texts in every combination up to 2 entries, at every position above");
    #[cfg(feature = "std")]
    {
        table!("Display", for_mid_shapes, push_shape, display, "shapes 0x0..9x9; 21 texts (13 without unicode_width) in every combination up to 3 entries, at every position above");
        let mut t: Table = vec![];
        push_shape!(U2, U2, t, display4);
        push_shape!(U1, U4, t, display4);
        push_shape!(U4, U1, t, display4);
        if ck.thorough || cfg!(not(debug_assertions)) {
            ck.bound("Display of four entries", "2x2, 1x4, 4x1 with every combination of texts (quick: without debug assertions)");
            explore_table(&ck, "Display of four entries", &t);
        }
        if ck.thorough {
            table!("Display of large shapes", for_large_shapes, push_shape, display, "selected shapes up to 32x32");
        }
        #[cfg(not(feature = "unicode_width"))]
        table!("Display of other texts", for_small_shapes, push_shape, display_loose, "shapes 0x0..4x4, texts that are not ASCII: totality and containment only");
    }
    let mut t: Table = vec![];
    for_kinds!(push_kind_lens, t, kind_length);
    for_kinds!(push_kind_shapes, t, kind_shape);
    #[cfg(feature = "std")]
    for_kinds!(push_kind_shapes, t, kind_display);
    ck.bound("kinds", format!("numbers of {}, {} and shapes {}", kinds::KINDS, kinds::LENS, kinds::SHAPES));
    explore_table(&ck, "kinds", &t);
    ck.finish();
}
