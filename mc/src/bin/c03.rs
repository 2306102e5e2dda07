//! C03: `Vector::into_iter()` against a double-ended queue.
use mc::kinds::{self, *};
use mc::shapes::*;
use mc::tok::{self, Elem};
use mc::*;
use rowcol::vector::ArrayLen;
use rowcol::prelude::Vector;
use rowcol_mc as mc;

fn run<T: Elem, N: ArrayLen<T>>(ctx: &mut Ctx, o: seq::Opts) {
    tok::reset();
    let n = N::to_usize();
    let model = (0..n as i64).map(|i| vec![(i + 1) % T::VALUES]).collect();
    let v = Vector::<T, N>::generate(|i| T::make((i as i64 + 1) % T::VALUES));
    seq::drive(ctx, seq::seq(v.into_iter(), |x: T| vec![x.val()]), model, o, &|held, when| {
        tok::verify(if T::COUNTED { held as i64 } else { 0 }, when)
    });
    tok::verify(0, "end");
}

fn quick<T: Elem, N: ArrayLen<T>>(ctx: &mut Ctx) {
    run::<T, N>(ctx, seq::Opts { depth: 4, after: 1, offset: false, sparse: false })
}
fn three<T: Elem, N: ArrayLen<T>>(ctx: &mut Ctx) {
    run::<T, N>(ctx, seq::Opts { depth: 3, after: 1, offset: false, sparse: false })
}
fn deep<T: Elem, N: ArrayLen<T>>(ctx: &mut Ctx) {
    run::<T, N>(ctx, seq::Opts { depth: 6, after: 2, offset: false, sparse: false })
}
fn offset1<T: Elem, N: ArrayLen<T>>(ctx: &mut Ctx) {
    run::<T, N>(ctx, seq::Opts { depth: 1, after: 1, offset: true, sparse: false })
}
fn offset2<T: Elem, N: ArrayLen<T>>(ctx: &mut Ctx) {
    run::<T, N>(ctx, seq::Opts { depth: 2, after: 1, offset: true, sparse: true })
}
fn shallow<T: Elem, N: ArrayLen<T>>(ctx: &mut Ctx) {
    run::<T, N>(ctx, seq::Opts { depth: 2, after: 1, offset: false, sparse: false })
}

/// Every kind of element that generic code can tell apart.
fn kind<Z: Slot, N: ArrayLen<kinds::F<Z>>>(ctx: &mut Ctx) {
    kinds::reset();
    run::<kinds::F<Z>, N>(ctx, seq::Opts { depth: 1, after: 1, offset: N::to_usize() <= 3, sparse: true });
    kinds::verify("end");
}

fn main() {
    let ck = Check::new("C03");
    use mc::tok::{Boxed, Tok, Wide, ZTok};
    if cfg!(miri) {
        let mut t: Table = vec![];
        push_len_of!(U0, 0, t, offset1, Tok);
        push_len_of!(U1, 1, t, offset1, Tok);
        push_len_of!(U3, 3, t, offset1, Tok);
        push_len_of!(U2, 2, t, offset1, ZTok);
        push_len_of!(U2, 2, t, offset1, Wide);
        push_len_of!(U2, 2, t, offset1, Boxed);
        if ck.thorough {
            for_tiny_lens!(push_len_of, t, shallow, Tok);
        }
        explore_table(&ck, "histories", &t);
        return ck.finish();
    }
    let mut t: Table = vec![];
    for_tiny_lens!(push_len_of, t, quick, Tok);
    for_tiny_lens!(push_len_of, t, quick, ZTok);
    for_tiny_lens!(push_len_of, t, three, u8);
    for_tiny_lens!(push_len_of, t, three, Boxed);
    for_tiny_lens!(push_len_of, t, three, Wide);
    ck.bound("histories", "lengths 0..=4, up to 4 calls (tracked and zero-sized elements; 3 calls for u8, boxed, over-aligned) plus a finishing call");
    explore_table(&ck, "histories", &t);
    let mut t: Table = vec![];
    for_lens!(push_len_of, t, offset1, Tok);
    for_lens!(push_len_of, t, offset1, ZTok);
    for_lens!(push_len_of, t, offset1, i32);
    ck.bound("every state", "lengths 0..=32, every (front, back), every next call with every distance");
    explore_table(&ck, "every state", &t);
    if ck.thorough {
        let mut t: Table = vec![];
        for_tiny_lens!(push_len_of, t, deep, Tok);
        ck.bound("deep histories", "lengths 0..=4, up to 6 calls");
        explore_table(&ck, "deep histories", &t);
        let mut t: Table = vec![];
        for_lens!(push_len_of, t, offset2, Tok);
        for_lens!(push_len_of, t, offset2, Wide);
        ck.bound("two steps from every state", "lengths 0..=32");
        explore_table(&ck, "two steps from every state", &t);
    }
    let mut t: Table = vec![];
    for_kinds!(push_kind_lens, t, kind);
    ck.bound("kinds", format!("{}, {}: every (front, back) up to length 3, every next call", kinds::KINDS, kinds::LENS));
    explore_table(&ck, "kinds", &t);
    ck.finish();
}
