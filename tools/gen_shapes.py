#!/usr/bin/env python3
"""Writes mc/src/bin/c22_shapes.rs: every operation that relates shapes, at every combination of shapes within the bounds below, one
program a line.  A line ending in `// + …` is well-shaped and must compile; one ending in `// ! …` (feature `illshaped`) must be
refused.  Which is which follows from the rules of linear algebra written here, not from the library."""
import itertools
import os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mc", "src", "bin", "c22_shapes.rs")
ALL = range(33)
BIG = [(32, 31), (31, 32), (0, 32), (32, 0), (16, 32), (32, 16), (8, 9), (15, 16), (16, 17), (32, 32), (17, 17)]
SMALL = [(n, m) for n in range(6) for m in range(6)] + BIG
L = []
COUNT = [0, 0]


def V(n, t="i32"):
    return "Vector<%s, U%d>" % (t, n)


def M(r, c, t="i32"):
    return "Matrix<%s, U%d, U%d>" % (t, r, c)


def case(ok, params, body, what):
    """ok: True (must compile), False (must be refused) or None (says nothing)."""
    if ok is None:
        return
    i = sum(COUNT)
    COUNT[0 if ok else 1] += 1
    L.append("%sfn f%d(%s) { %s } // %s %s" % ("" if ok else '#[cfg(feature = "illshaped")] ', i, params, body, "+" if ok else "!", what))


# ---- vectors, two lengths
for n, m in itertools.product(ALL, ALL):
    p = "a: %s, b: %s" % (V(n), V(m))
    case(n == m, p, "let _: %s = a + b;" % V(n), "sum of vectors of lengths %d and %d" % (n, m))
    case(n == m, p, "let _ = a.dot(&b);", "dot product of vectors of lengths %d and %d" % (n, m))
    case(n == m, p, "let _ = a == b;", "equality of vectors of lengths %d and %d" % (n, m))
    case(n == m, "", "let _ = %s::new([0; %d]);" % (V(n).replace("Vector<", "Vector::<"), m), "vector of length %d from an array of %d" % (n, m))
    # (chunks of nothing: the compiler's one error for all of them names no line; see c22_zero.rs)
    case(n % m == 0 if m else None if n else False, "a: %s" % V(n), "let _: Option<%s> = a.into_chunks::<U%d>().next();" % (V(m), m), "vector of length %d in chunks of %d" % (n, m))
for n, m in SMALL:
    for e, t in (("i32", V), ("f64", V)):
        a, b = V(n, e), V(m, e)
        for op in "+-":
            for x in ("a", "&a"):
                for y in ("b", "&b"):
                    case(n == m, "a: %s, b: %s" % (a, b), "let _: %s = %s %s %s;" % (a, x, op, y), "%s %s %s of lengths %d and %d" % (x, op, y, n, m))
            case(n == m, "mut a: %s, b: %s" % (a, b), "a %s= b;" % op, "a %s= b of lengths %d and %d" % (op, n, m))
    a, b = V(n, "f64"), V(m, "f64")
    case(n == m, "a: %s" % a, "let _: [f64; %d] = a.into_inner();" % m, "array of %d out of a vector of length %d" % (m, n))
    case(n == m, "a: %s" % a, "let _: &[f64; %d] = &*a;" % m, "array of %d by reference out of a vector of length %d" % (m, n))
    case(n == m, "", "let _: %s = %s::generate(|i| i as f64);" % (b, a.replace("Vector<", "Vector::<")), "generate %d into %d" % (n, m))
    case(n == m, "a: %s" % a, "let _: %s = a.clone();" % b, "clone of length %d into %d" % (n, m))
    case(n == m, "a: %s" % a, "let _: %s = -a;" % b, "negation of length %d into %d" % (n, m))
    case(n == m, "a: %s" % a, "let _: %s = a * 2.0;" % b, "multiple of length %d into %d" % (n, m))
    case(n == m, "a: %s" % a, "let _: %s = a / 2.0;" % b, "quotient of length %d into %d" % (n, m))
    case(n == m, "a: %s" % a, "let _: %s = a.normalized();" % b, "normalised of length %d into %d" % (n, m))
    case(n == 3 and m == 3, "a: %s, b: %s" % (a, b), "let _: %s = a.cross(&b);" % V(3, "f64"), "cross product of lengths %d and %d" % (n, m))
for n in ALL:
    for f in ("max()", "min()", "max_by(|x, y| x.cmp(y))", "min_by(|x, y| x.cmp(y))"):
        case(n > 0, "a: %s" % V(n), "let _: i32 = a.%s;" % f, "%s of a vector of length %d" % (f, n))
        case(n > 0, "a: %s" % M(n, n), "let _: i32 = a.%s;" % f, "%s of a %dx%d matrix" % (f, n, n))
    case(n == 3, "a: %s, b: %s" % (V(n), V(n)), "let _: %s = a.cross(&b);" % V(n), "cross product of two vectors of length %d" % n)
    for k in ALL:
        if abs(n - k) < 2 or n in (0, 32) or k in (0, 32):
            case(n == k, "", "let _: %s = vector![%s];" % (V(n), ", ".join(["0"] * k)), "vector! of %d elements as length %d" % (k, n))

# ---- matrices, two shapes
QUADS = list(itertools.product(range(4), repeat=4)) + [a + b for a in ((32, 31), (31, 32), (32, 32), (1, 32), (32, 1)) for b in ((32, 31), (31, 32), (32, 32), (1, 32), (32, 1))]
for r, c, s, d in QUADS:
    p = "a: %s, b: %s" % (M(r, c), M(s, d))
    w = "of %dx%d and %dx%d" % (r, c, s, d)
    same = (r, c) == (s, d)
    for x in ("a", "&a"):
        for y in ("b", "&b"):
            for op in "+-":
                case(same, p, "let _: %s = %s %s %s;" % (M(r, c), x, op, y), "%s %s %s %s" % (x, op, y, w))
            case(c == s, p, "let _: %s = %s * %s;" % (M(r, d), x, y), "%s * %s %s" % (x, y, w))
    for op in "+-":
        case(same, "mut " + p, "a %s= b;" % op, "a %s= b %s" % (op, w))
    # (a wide *= square) is well-shaped, but not offered
    case(True if r == c == s == d else None if c == s == d else False, "mut " + p, "a *= b;", "a *= b " + w)
    case(same, p, "let _ = a == b;", "equality " + w)
    case(same, p.replace("i32", "f64"), "let _ = approx::ApproxEq::relative_eq(&a, &b, 1.0, 1.0);", "relative_eq " + w)
    case(same, p.replace("i32", "f64"), "let _ = approx::ApproxEq::ulps_eq(&a, &b, 1.0, 1);", "ulps_eq " + w)
    case((s, d) == (c, r), "a: %s" % M(r, c), "let _: %s = a.transposed();" % M(s, d), "transposed of %dx%d as %dx%d" % (r, c, s, d))
    case(same, "a: %s" % M(r, c), "let _: %s = a.map(|_, x| x as i64);" % M(s, d, "i64"), "map of %dx%d as %dx%d" % (r, c, s, d))
    case(same, "a: %s" % M(r, c), "let _: %s = a.clamped(0, 1);" % M(s, d), "clamped of %dx%d as %dx%d" % (r, c, s, d))
    case(same, "a: %s" % M(r, c), "let _: %s = -a;" % M(s, d), "negation of %dx%d as %dx%d" % (r, c, s, d))
    case(same, "a: %s" % M(r, c), "let _: %s = a * 2;" % M(s, d), "multiple of %dx%d as %dx%d" % (r, c, s, d))
    case(same, "a: %s" % M(r, c), "let _: %s = a / 2;" % M(s, d), "quotient of %dx%d as %dx%d" % (r, c, s, d))
    case(same, "a: %s" % M(r, c, "Complex<i32>"), "let _: %s = a.conjugate();" % M(s, d, "Complex<i32>"), "conjugate of %dx%d as %dx%d" % (r, c, s, d))
    case(same, "", "let _ = %s::new([[0; %d]; %d]);" % (M(r, c).replace("Matrix<", "Matrix::<"), d, s), "%dx%d from %d arrays of %d" % (r, c, s, d))
    if max(r, c, s, d) < 4:
        # (a matrix of no rows has no columns to count)
        case(None if s == 0 and d else same, "", "let _: %s = matrix![%s];" % (M(r, c), ", ".join(["[%s]" % ", ".join(["0"] * d)] * s)), "matrix! of %d rows of %d as %dx%d" % (s, d, r, c))
for k in itertools.product(range(4), repeat=3):
    if len(set(k)) > 1:
        case(False, "", "let _ = matrix![%s];" % ", ".join("[%s]" % ", ".join(["0"] * j) for j in k), "matrix! of rows of %d, %d and %d" % k)
# products in a row: the shape of the result is that of the outer dimensions
for r, c, s, d in itertools.product(range(1, 5), repeat=4):
    case((r, c) == (s, d), "a: %s, b: %s" % (M(r, 3), M(3, c)), "let _: %s = a * b;" % M(s, d), "product of %dx3 and 3x%d as %dx%d" % (r, c, s, d))

# ---- a matrix and a length
for r, c, n in list(itertools.product(range(5), repeat=3)) + [(32, 31, 32), (32, 31, 31), (31, 32, 31), (31, 32, 32), (32, 32, 32), (16, 32, 16), (1, 32, 1), (32, 1, 32)]:
    for y in ("b", "&b"):
        case(c == n, "a: %s, b: %s" % (M(r, c), V(n)), "let _: %s = a * %s;" % (V(r), y), "%dx%d * %s of length %d" % (r, c, y, n))
        case(c == n and r == n if r != n or c != n else None, "a: %s, b: %s" % (M(r, c), V(c)), "let _: %s = a * %s;" % (V(n), y),
             "%dx%d * %s of length %d as length %d" % (r, c, y, c, n)) if n != r else None
    case(n == min(r, c), "", "let _ = %s::diag([0; %d]);" % (M(r, c).replace("Matrix<", "Matrix::<"), n), "%dx%d with %d on the diagonal" % (r, c, n))
    case(n == c, "a: %s" % M(r, c), "let _: Option<%s> = a.rows_iter().next();" % V(n), "row of %dx%d as length %d" % (r, c, n))
    case(n == r, "a: %s" % M(r, c), "let _: Option<%s> = a.cols_iter().next();" % V(n), "column of %dx%d as length %d" % (r, c, n))
    case(n == c, "a: %s" % M(r, c), "let _: Option<%s> = a.rows_iter().next_back();" % V(n), "last row of %dx%d as length %d" % (r, c, n))
    case(n == r, "a: %s" % M(r, c), "let _: Option<%s> = a.cols_iter().next_back();" % V(n), "last column of %dx%d as length %d" % (r, c, n))
for r, c in list(itertools.product(range(7), repeat=2)) + [(8, 4), (4, 8), (32, 1), (1, 32), (16, 2), (3, 10), (31, 1)]:
    # (with no columns, no reshaping is offered)
    for k in range(33):
        case(None if c == 0 and k == 0 else r * c == k, "a: %s" % V(k), "let _: %s = From::from(a);" % M(r, c), "vector of length %d as %dx%d" % (k, r, c))

# ---- square matrices only
for r, c in list(itertools.product(range(9), repeat=2)) + [(32, 31), (31, 32), (16, 8), (8, 16), (1, 32), (32, 1), (12, 9)] + [(n, n) for n in range(9, 33)]:
    t = M(r, c).replace("Matrix<", "Matrix::<")
    f = M(r, c, "f64")
    sq = r == c
    w = "%dx%d" % (r, c)
    case(sq, "", "let _ = %s::identity();" % t, "identity of " + w)
    case(sq, "", "let _: %s = num::One::one();" % M(r, c), "one of " + w)
    case(sq, "mut a: %s" % M(r, c), "a.transpose();", "transpose in place of " + w)
    case(sq, "a: %s" % M(r, c), "let _: %s = a.pow(2);" % M(r, c), "power of " + w)
    case(None if sq and r == 0 else sq, "a: %s" % f, "let _: f64 = a.determinant();", "determinant of " + w)
    case(None if sq and r < 2 else sq, "a: %s" % f, "let _: f64 = a.cofactor((0, 0));", "cofactor of " + w)
    case(None if sq and r == 0 else sq, "a: %s" % f, "let _: Option<%s> = a.inverse();" % f, "inverse of " + w)
    case(True, "", "let _: %s = num::Zero::zero();" % M(r, c), "zero of " + w)
    case(True, "", "let _: %s = num::Bounded::max_value();" % M(r, c), "bound of " + w)
    case(True, "", "let _: %s = Default::default();" % M(r, c), "default of " + w)
    case(True, "a: %s" % M(r, c), "let _: i32 = a.sum();", "sum of " + w)

# ---- what the elements can do, and no more
EL = {"i32": "clone copy eq peq debug default ord", "f64": "clone copy peq debug default", "String": "clone eq peq debug default ord",
      "Only": "", "PeqOnly": "peq", "Rc<u8>": "clone eq peq debug default ord", "&'static str": "clone copy eq peq debug default ord",
      "Vec<f32>": "clone peq debug default", "Vector<f32, U2>": "clone copy peq debug default", "Matrix<u8, U1, U2>": "clone copy eq peq debug default"}
for e, caps in sorted(EL.items()):
    for t in [V(n, e) for n in (0, 1, 2, 32)] + [M(r, c, e) for r, c in ((0, 0), (1, 2), (2, 2), (2, 1))]:
        for cap, b in (("clone", "Clone"), ("copy", "Copy"), ("eq", "Eq"), ("peq", "PartialEq"), ("debug", "std::fmt::Debug"), ("default", "Default")):
            case(cap in caps.split(), "", "fn is<T: %s>() {} is::<%s>();" % (b, t), "%s is %s" % (t, b))
        if ", U0" not in t and t.count("U1") != 1:
            for f in ("max()", "min()"):
                if e.startswith(("Vector", "Matrix")):
                    continue
                case("ord" in caps.split(), "a: %s" % t, "let _ = a.%s;" % f, "%s of %s" % (f, t))
        if not e.startswith(("Vector", "Matrix")):
            case("ord" in caps.split(), "mut a: %s, lo: %s, hi: %s" % (t, e, e), "a.clamp(lo, hi);", "clamp of %s" % t)
# moving, borrowing and pointwise operations ask nothing more of the elements than what they apply
for n in (1, 2, 6, 32):
    v = V(n, "Only")
    for body in ("let _ = a.into_iter().next_back();", "let _ = a.into_inner();", "let _ = a.iter().next();", "let _ = a.as_slice();",
                 "let _ = a.into_chunks::<U%d>().next_back();" % n, "let _ = &a[0];", "let _ = a.into_iter().collect::<%s>();" % v, "let _ = a.len();"):
        case(True, "a: %s" % v, body, "%s on elements that can do nothing: %s" % (v, body))
    case(True, "a: %s, b: %s" % (V(n, "OnlyAdd"), V(n, "OnlyAdd")), "let _: %s = a + b;" % V(n, "Only"), "sum of elements that can only be added, length %d" % n)
    case(True, "a: %s" % V(n, "OnlyAdd"), "let _: %s = -a;" % V(n, "Only"), "negation of elements that can only be added and negated, length %d" % n)
    case(True, "a: %s, b: %s" % (V(n, "u8"), V(n, "OnlyPeq")), "let _ = b == a;", "equality between element types, length %d" % n)
for r, c in ((1, 1), (2, 3), (3, 2), (4, 4)):
    m = M(r, c, "Only")
    for body in ("let _: %s = a.map(|_, _| OnlyAdd);" % M(r, c, "OnlyAdd"), "let _ = a.rows_iter_ref().next();", "let _ = a.cols_iter_ref().next_back();",
                 "let _ = &a[(0, 0)];", "let _ = a.all(|_, _| true);", "let _ = a.any(|_, _| true);", "let _ = a.dim();",
                 "let _: %s = Vector::<Only, U%d>::generate(|_| Only).into();" % (m, r * c), "let _: %s = Matrix::generate(|_| Only);" % m):
        case(True, "a: %s" % m, body, "%s on elements that can do nothing: %s" % (m, body))
    case(True, "a: %s, b: %s" % (M(r, c, "OnlyAdd"), M(r, c, "OnlyAdd")), "let _: %s = a + b;" % M(r, c, "Only"), "sum of elements that can only be added, %dx%d" % (r, c))
    case(True, "a: %s" % M(r, c, "String"), "let _: %s = a.transposed();" % M(c, r, "String"), "transposed of strings, %dx%d" % (r, c))

HEAD = """//! Written by tools/gen_shapes.py.
#![allow(unused, unused_mut, clippy::all)]
#[macro_use]
extern crate rowcol;
use num::complex::Complex;
use rowcol::prelude::*;
use std::rc::Rc;
struct Only;
struct OnlyAdd;
struct OnlyPeq;
struct PeqOnly;
impl std::ops::Add for OnlyAdd { type Output = Only; fn add(self, _: OnlyAdd) -> Only { Only } }
impl std::ops::Neg for OnlyAdd { type Output = Only; fn neg(self) -> Only { Only } }
impl PartialEq<u8> for OnlyPeq { fn eq(&self, _: &u8) -> bool { true } }
impl PartialEq for PeqOnly { fn eq(&self, _: &PeqOnly) -> bool { true } }
"""
open(OUT, "w").write(HEAD + "\n".join(L) + "\n\nfn main() {}\n")
print("%d well-shaped, %d ill-shaped" % tuple(COUNT))
