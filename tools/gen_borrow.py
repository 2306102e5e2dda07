#!/usr/bin/env python3
"""Writes mc/src/bin/c01_borrow.rs: every pair of a way to borrow from a container (or iterator) and an action that invalidates the
borrowed part.  Without the feature `misuse` the file must compile; with it every line marked must be rejected by the compiler.
With `share`, every line of that part must be rejected: elements that may not cross threads are not made to by their container."""
import os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mc", "src", "bin", "c01_borrow.rs")
V = "Vector<String, U3>"
M = "Matrix<String, U2, U3>"
W = "Vector<Vector<String, U3>, U2>"
S_V = ["v.as_slice()", "&v[1]", "&v[U1::new()]", "&v[U0::new()]", "v.iter()", "v.iter().next()", "v.iter().next_back()", "&*v",
       "AsRef::<[String]>::as_ref(&v)", "unsafe { v.get_unchecked(1) }", "Deref::deref(&v)", "v.iter().max()", "v.as_slice().last()"]
U_V = ["v.as_slice_mut()", "&mut v[1]", "&mut v[U1::new()]", "&mut v[U0::new()]", "v.iter_mut()", "v.iter_mut().next()",
       "v.iter_mut().next_back()", "&mut *v", "AsMut::<[String]>::as_mut(&mut v)", "unsafe { v.get_unchecked_mut(1) }", "DerefMut::deref_mut(&mut v)"]
S_M = ["&m[(1, 2)]", "&m[(U1::new(), U2::new())]", "&m[(U0::new(), U0::new())]", "&m[(U1::new(), U0::new())]", "&m[(U0::new(), U2::new())]",
       "unsafe { m.get_unchecked((1, 2)) }", "m.rows_iter()", "m.cols_iter()"]
for it in ("m.rows_iter_ref()", "m.cols_iter_ref()"):
    S_M += [it] + [it + e for e in (".next()", ".next_back()", ".nth(1)", ".last()", ".rev()", ".skip(1).next()")]
S_M += ["m.cols_iter_ref().next().unwrap()" + e for e in (".next()", ".next_back()", ".nth(1)", ".last()", ".map(|x| x.as_str())")]
S_M += ["m.rows_iter_ref().next().unwrap().iter()", "m.rows_iter_ref().collect::<Vec<_>>()"]
U_M = ["&mut m[(1, 2)]", "&mut m[(U1::new(), U2::new())]", "&mut m[(U0::new(), U0::new())]", "&mut m[(U1::new(), U0::new())]",
       "&mut m[(U0::new(), U2::new())]", "unsafe { m.get_unchecked_mut((1, 2)) }"]
S_W = []
for k in ("RowsIter", "ColsIter", "RowsIterRef", "ColsIterRef"):
    S_W += ["%s::new(&w)" % k]
S_W += ["RowsIterRef::new(&w).next()", "RowsIterRef::new(&w).next_back()", "ColsIterRef::new(&w).next()", "ColsIterRef::new(&w).nth(1)", "ColsIterRefInner::new(&w, 1)",
        "ColsIterRefInner::new(&w, 1).next()", "ColsIterRefInner::new(&w, 1).next_back()", "ColsIterRefInner::new(&w, 1).nth(1)", "ColsIterRefInner::new(&w, 1).last()"]
ACT = {
    "v": ["drop(v);", "v = vec3();", "let moved = v; touch(&moved);", "v.as_slice_mut()[0].clear();", "touch(&v.iter_mut().next());", "v[0].clear();",
          "touch(&v.into_iter().next());", "touch(&v.into_inner());", "v.clamp(String::new(), String::new());", "touch(&v.into_chunks::<U1>().next());"],
    "m": ["drop(m);", "m = mat23();", "let moved = m; touch(&moved);", "m[(0, 0)].clear();", "m[(U0::new(), U0::new())].clear();", "touch(&m.map(|_, x| x));",
          "m.clamp(String::new(), String::new());"],
    "w": ["drop(w);", "w = vec23();", "let moved = w; touch(&moved);", "w[0][0].clear();", "touch(&w.into_iter().next());"],
}
READ = {"v": ["touch(&v.len());", "touch(&v[0]);", "touch(&v.clone());", "touch(&v.iter().next());"],
        "m": ["touch(&m.rows());", "touch(&m[(0, 0)]);", "touch(&m.clone());", "touch(&m.rows_iter_ref().next());"]}
MK = {"v": "vec3()", "m": "mat23()", "w": "vec23()"}
L = ["""//! Written by tools/gen_borrow.py.
#![allow(unused, unused_mut, clippy::all)]
use rowcol::matrix::iter::*;
use rowcol::prelude::*;
use rowcol::vector::{Chunks, IntoIter};
use std::cell::Cell;
use std::ops::{Deref, DerefMut};
use std::rc::Rc;

fn touch<T>(_: &T) {}
fn vec3() -> %s { Vector::generate(|i| i.to_string()) }
fn mat23() -> %s { Matrix::generate(|(i, j)| format!("{}{}", i, j)) }
fn vec23() -> %s { Vector::generate(|_| vec3()) }
""" % (V, M, W)]
n = 0
for x, shared, unique in (("v", S_V, U_V), ("m", S_M, U_M), ("w", S_W, [])):
    for p in shared + unique:
        acts = ACT[x] + (READ[x] if p in unique else [])
        for a in acts:
            L.append("fn f%d() { let mut %s = %s; let r = %s; #[cfg(feature = \"misuse\")] { %s } touch(&r); } //! %s, then %s" % (n, x, MK[x], p, a, p, a))
            n += 1
        L.append("#[cfg(feature = \"misuse\")] fn f%d() { let r = { let mut %s = %s; %s }; touch(&r); } //! %s outliving its container" % (n, x, MK[x], p, p))
        n += 1
    for p in unique:
        for q in unique:
            L.append("fn f%d() { let mut %s = %s; let r = %s; #[cfg(feature = \"misuse\")] { let s = %s; touch(&s); } touch(&r); } //! %s, then %s" % (n, x, MK[x], p, q, p, q))
            n += 1
L.append("""
fn send<T: Send>() {}
fn sync<T: Sync>() {}
""")
for e in ("Rc<u8>", "Cell<u8>", "*const u8"):
    for t, owned in (("Vector<%s, U2>", True), ("Matrix<%s, U1, U2>", True), ("IntoIter<%s, U2>", True), ("Chunks<%s, U2, U1>", True),
                     ("RowsIter<'static, %s, U1, U2>", False), ("ColsIter<'static, %s, U1, U2>", False), ("RowsIterRef<'static, %s, U1, U2>", False),
                     ("ColsIterRef<'static, %s, U1, U2>", False), ("ColsIterRefInner<'static, %s, U1, U2>", False)):
        for b in ("send", "sync"):
            if e == "Cell<u8>" and b == "send" and owned:
                continue
            t2 = t % e
            L.append("#[cfg(feature = \"share\")] fn f%d() { %s::<%s>() } //! %s is %s" % (n, b, t2, t2, b.title()))
            n += 1
L.append("\nfn main() {}")
open(OUT, "w").write("\n".join(l.replace(" //! ", " // ! ") for l in L) + "\n")
print(n, "pairs")
