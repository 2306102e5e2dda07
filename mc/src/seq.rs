//! Generic driver: a double-ended exact-size iterator against a `VecDeque`.
//! The iterator is behind a thin object-safe wrapper, so that only the calls are monomorphised.

use crate::explore::{catch, Ctx};
use crate::{ensure, ensure_eq, log};
use std::collections::VecDeque;

/// What is observed of one item.
pub type V = Vec<i64>;

pub trait Seq {
    fn len(&self) -> usize;
    fn size_hint(&self) -> (usize, Option<usize>);
    fn next(&mut self) -> Option<V>;
    fn next_back(&mut self) -> Option<V>;
    fn nth(&mut self, n: usize) -> Option<V>;
    fn nth_back(&mut self, n: usize) -> Option<V>;
    fn take2(&mut self) -> Vec<V>;
    fn take2_back(&mut self) -> Vec<V>;
    fn position2(&mut self) -> Option<usize>;
    fn collect_at_most(&mut self, n: usize) -> Vec<V>;
    fn count(self: Box<Self>) -> usize;
    fn last(self: Box<Self>) -> Option<V>;
    fn for_each(self: Box<Self>, f: &mut dyn FnMut(V));
    fn rev_each(self: Box<Self>, f: &mut dyn FnMut(V));
    fn fold(self: Box<Self>, f: &mut dyn FnMut(V));
    fn rfold(self: Box<Self>, f: &mut dyn FnMut(V));
    fn step2(self: Box<Self>, f: &mut dyn FnMut(V));
}

struct Wrap<I, F>(I, F);

impl<I: DoubleEndedIterator + ExactSizeIterator, F: Fn(I::Item) -> V> Seq for Wrap<I, F> {
    fn len(&self) -> usize {
        self.0.len()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
    fn next(&mut self) -> Option<V> {
        let x = self.0.next();
        x.map(&self.1)
    }
    fn next_back(&mut self) -> Option<V> {
        let x = self.0.next_back();
        x.map(&self.1)
    }
    fn nth(&mut self, n: usize) -> Option<V> {
        let x = self.0.nth(n);
        x.map(&self.1)
    }
    fn nth_back(&mut self, n: usize) -> Option<V> {
        let x = self.0.nth_back(n);
        x.map(&self.1)
    }
    fn take2(&mut self) -> Vec<V> {
        let f = &self.1;
        self.0.by_ref().take(2).map(|x| f(x)).collect()
    }
    fn take2_back(&mut self) -> Vec<V> {
        let f = &self.1;
        self.0.by_ref().rev().take(2).map(|x| f(x)).collect()
    }
    fn position2(&mut self) -> Option<usize> {
        let mut k = 0;
        self.0.position(|_| {
            k += 1;
            k == 2
        })
    }
    fn collect_at_most(&mut self, n: usize) -> Vec<V> {
        let v: Vec<I::Item> = self.0.by_ref().take(n).collect();
        v.into_iter().map(&self.1).collect()
    }
    fn count(self: Box<Self>) -> usize {
        self.0.count()
    }
    fn last(self: Box<Self>) -> Option<V> {
        let Wrap(i, f) = *self;
        i.last().map(f)
    }
    fn for_each(self: Box<Self>, g: &mut dyn FnMut(V)) {
        let Wrap(i, f) = *self;
        for x in i {
            g(f(x));
        }
    }
    fn rev_each(self: Box<Self>, g: &mut dyn FnMut(V)) {
        let Wrap(i, f) = *self;
        for x in i.rev() {
            g(f(x));
        }
    }
    fn fold(self: Box<Self>, g: &mut dyn FnMut(V)) {
        let Wrap(i, f) = *self;
        i.fold((), |(), x| g(f(x)))
    }
    fn rfold(self: Box<Self>, g: &mut dyn FnMut(V)) {
        let Wrap(i, f) = *self;
        i.rfold((), |(), x| g(f(x)))
    }
    fn step2(self: Box<Self>, g: &mut dyn FnMut(V)) {
        let Wrap(i, f) = *self;
        for x in i.step_by(2) {
            g(f(x));
        }
    }
}

/// Wraps an iterator; `view` consumes (drops) an item and tells what was seen of it.
pub fn seq<'a, I>(it: I, view: impl Fn(I::Item) -> V + 'a) -> Box<dyn Seq + 'a>
where
    I: DoubleEndedIterator + ExactSizeIterator + 'a,
{
    Box::new(Wrap(it, view))
}

#[derive(Clone, Copy)]
pub struct Opts {
    /// calls explored per history (before the finishing call)
    pub depth: usize,
    /// calls explored after exhaustion
    pub after: usize,
    /// start from every (front, back) state instead of the initial one
    pub offset: bool,
    /// only distances near the ends (large sequences)
    pub sparse: bool,
}

fn distances(rem: usize, sparse: bool, out: &mut Vec<usize>) {
    out.clear();
    if sparse && rem > 3 {
        out.extend([0, 1, 2, rem / 2, rem - 2, rem - 1, rem, rem + 1]);
    } else {
        out.extend(0..=rem + 1);
    }
    out.extend([usize::MAX - 1, usize::MAX]);
    if !cfg!(miri) {
        out.extend(FAR);
    }
    out.dedup();
}

/// Distances that turn into short ones when they are truncated, or multiplied by a stride without regard to overflow.
const FAR: [usize; 7] = [1 << 8, 1 << 16, 1 << 32, 1 << 63, usize::MAX / 3 + 1, usize::MAX / 5 + 1, usize::MAX / 7 + 1];

fn same(what: &str, got: Option<V>, want: Option<V>) {
    ensure_eq!(got, want, "{}", what);
}

/// Runs one history of `it`, whose items are expected to be `model`.  `owned()` is told how many items the
/// iterator still holds, after every step.
pub fn drive(ctx: &mut Ctx, mut it: Box<dyn Seq + '_>, model: Vec<V>, o: Opts, owned: &dyn Fn(usize, &str)) {
    let n = model.len();
    let mut m: VecDeque<V> = model.into();
    let (mut front, mut back) = (0usize, 0usize); // consumed from either end
    let mut ds = vec![];

    macro_rules! observe {
        ($what:expr) => {{
            let len = match catch(|| it.len()) {
                Ok(l) => l,
                Err(e) => crate::fail(format!("after {}: len() panicked: {:?}", $what, e)),
            };
            ensure_eq!(len, m.len(), "after {}: len()", $what);
            ensure_eq!(it.size_hint(), (m.len(), Some(m.len())), "after {}: size_hint()", $what);
            owned(m.len(), &$what);
            ctx.state((n, front, back, m.len()));
        }};
    }

    observe!("creation".to_string());
    if o.offset {
        let f = ctx.choose(n + 1);
        let b = ctx.choose(n - f + 1);
        for _ in 0..f {
            let w = m.pop_front();
            same("next()", it.next(), w);
            front += 1;
        }
        for _ in 0..b {
            let w = m.pop_back();
            same("next_back()", it.next_back(), w);
            back += 1;
        }
        log!(ctx, "take {} from the front and {} from the back of {}", f, b, n);
        observe!(format!("{} next and {} next_back", f, b));
    }
    let mut left = o.depth;
    let mut after = o.after;
    loop {
        let rem = m.len();
        let may = left > 0 && (rem > 0 || after > 0);
        const TERM: usize = 9;
        distances(rem, o.sparse, &mut ds);
        // the interpreter is slow: there, a call is only followed by a drop, and nothing else is explored after it
        let op = if cfg!(miri) && left < o.depth && !may {
            0
        } else {
            ctx.choose(if may { TERM + 2 + 2 * ds.len() + 3 } else { TERM })
        };
        if op >= TERM {
            left -= 1;
            if rem == 0 {
                after -= 1;
            }
        }
        let what;
        match op {
            // ways to finish
            0 => {
                log!(ctx, "drop the rest ({} left)", rem);
                drop(it);
                owned(0, "drop");
                ctx.outcome((n, front, back, 0));
                return;
            }
            1 => {
                let c = it.count();
                log!(ctx, "count() -> {}", c);
                ensure_eq!(c, rem, "count()");
                owned(0, "count()");
                return;
            }
            2 => {
                let l = it.last();
                log!(ctx, "last() -> {:?}", l);
                same("last()", l, m.pop_back());
                owned(0, "last()");
                return;
            }
            3 => {
                // a `for` loop, bounded
                let mut k = 0;
                it.for_each(&mut |x| {
                    ensure!(k < rem, "the iterator yields more than its {} items", rem);
                    ensure_eq!(Some(x), m.pop_front(), "item {} of a for loop", k);
                    k += 1;
                });
                log!(ctx, "for loop -> {} items", k);
                ensure_eq!(k, rem, "items of a for loop");
                owned(0, "for loop");
                return;
            }
            4 => {
                let mut k = 0;
                it.rev_each(&mut |x| {
                    ensure!(k < rem, "the reversed iterator yields more than its {} items", rem);
                    ensure_eq!(Some(x), m.pop_back(), "item {} of a reversed for loop", k);
                    k += 1;
                });
                log!(ctx, "reversed for loop -> {} items", k);
                ensure_eq!(k, rem, "items of a reversed for loop");
                owned(0, "reversed for loop");
                return;
            }
            5 => {
                let mut k = 0;
                let mm = &mut m;
                it.fold(&mut |x| {
                    ensure!(k < rem, "fold sees more than {} items", rem);
                    ensure_eq!(Some(x), mm.pop_front(), "item {} of fold", k);
                    k += 1;
                });
                log!(ctx, "fold -> {} items", k);
                ensure_eq!(k, rem, "items of fold");
                owned(0, "fold");
                return;
            }
            6 => {
                let mut k = 0;
                let mm = &mut m;
                it.rfold(&mut |x| {
                    ensure!(k < rem, "rfold sees more than {} items", rem);
                    ensure_eq!(Some(x), mm.pop_back(), "item {} of rfold", k);
                    k += 1;
                });
                log!(ctx, "rfold -> {} items", k);
                ensure_eq!(k, rem, "items of rfold");
                owned(0, "rfold");
                return;
            }
            7 => {
                // every second item from the front: exercises nth through an adaptor
                let mut k = 0;
                it.step2(&mut |x| {
                    ensure!(2 * k < rem, "step_by yields too many items");
                    ensure_eq!(x, m[2 * k], "item {} of step_by(2)", k);
                    k += 1;
                });
                log!(ctx, "step_by(2) -> {} items", k);
                ensure_eq!(k, (rem + 1) / 2, "items of step_by(2)");
                owned(0, "step_by");
                return;
            }
            8 => {
                let got = it.collect_at_most(rem + 1);
                ensure_eq!(got, m.iter().cloned().collect::<Vec<_>>(), "collect()");
                log!(ctx, "collect -> {:?}", got);
                m.clear();
                ensure!(it.next().is_none(), "next() after exhaustion yields an item");
                ensure!(it.next_back().is_none(), "next_back() after exhaustion yields an item");
                observe!("collect".to_string());
                drop(it);
                owned(0, "collect");
                return;
            }
            9 => {
                let x = it.next();
                what = "next()".to_string();
                log!(ctx, "next() -> {:?}", x);
                front += (rem > 0) as usize;
                same("next()", x, m.pop_front());
            }
            10 => {
                let x = it.next_back();
                what = "next_back()".to_string();
                log!(ctx, "next_back() -> {:?}", x);
                back += (rem > 0) as usize;
                same("next_back()", x, m.pop_back());
            }
            op if op < 11 + ds.len() => {
                let k = ds[op - 11];
                let x = it.nth(k);
                what = format!("nth({})", k);
                log!(ctx, "nth({}) -> {:?}", k, x);
                let drop_n = k.min(rem);
                m.drain(..drop_n);
                front += k.saturating_add(1).min(rem);
                same(&what, x, m.pop_front());
                if FAR.contains(&k) {
                    left = 0;
                }
            }
            op if op < 11 + 2 * ds.len() => {
                let k = ds[op - 11 - ds.len()];
                let x = it.nth_back(k);
                what = format!("nth_back({})", k);
                log!(ctx, "nth_back({}) -> {:?}", k, x);
                m.truncate(rem - k.min(rem));
                back += k.saturating_add(1).min(rem);
                same(&what, x, m.pop_back());
                if FAR.contains(&k) {
                    left = 0;
                }
            }
            op => {
                // partial consumption through by_ref adaptors
                let which = op - 11 - 2 * ds.len();
                let got: Vec<V>;
                let want: Vec<V>;
                match which {
                    0 => {
                        what = "by_ref().take(2)".to_string();
                        got = it.take2();
                        want = m.drain(..rem.min(2)).collect();
                        front += rem.min(2);
                    }
                    1 => {
                        what = "by_ref().rev().take(2)".to_string();
                        got = it.take2_back();
                        want = (0..2).filter_map(|_| m.pop_back()).collect();
                        back += rem.min(2);
                    }
                    _ => {
                        what = "position(second)".to_string();
                        let p = it.position2();
                        got = vec![];
                        want = vec![];
                        ensure_eq!(p, if rem >= 2 { Some(1) } else { None }, "position of the second item");
                        m.drain(..rem.min(2));
                        front += rem.min(2);
                    }
                }
                log!(ctx, "{} -> {:?}", what, got);
                ensure_eq!(got, want, "{}", what);
            }
        }
        observe!(what);
    }
}
