//! The macros in programs with other names in scope, and without the standard library: every line marked must compile.
#![no_std]
#![allow(unused, clippy::all)]
extern crate std as the_standard_library;
mod by_path {
    fn v0() -> rowcol::vector::Vector<i32, rowcol::typenum::U0> { rowcol::vector![] } // + vector! of nothing by path, with nothing imported
    fn v1() -> rowcol::vector::Vector<i32, rowcol::typenum::U1> { rowcol::vector![1] } // + vector! of one by path, with nothing imported
    fn v3() -> rowcol::vector::Vector<i32, rowcol::typenum::U3> { rowcol::vector![1, 2, 3] } // + vector! of three by path, with nothing imported
    fn m00() -> rowcol::matrix::Matrix<i32, rowcol::typenum::U0, rowcol::typenum::U0> { rowcol::matrix![] } // + matrix! of nothing by path, with nothing imported
    fn m20() -> rowcol::matrix::Matrix<i32, rowcol::typenum::U2, rowcol::typenum::U0> { rowcol::matrix![[], []] } // + matrix! of two empty rows by path, with nothing imported
    fn m11() -> rowcol::matrix::Matrix<i32, rowcol::typenum::U1, rowcol::typenum::U1> { rowcol::matrix![[1]] } // + matrix! of one by path, with nothing imported
    fn m23() -> rowcol::matrix::Matrix<i32, rowcol::typenum::U2, rowcol::typenum::U3> { rowcol::matrix![[1, 2, 3], [4, 5, 6]] } // + matrix! of two rows by path, with nothing imported
    fn m32() -> rowcol::matrix::Matrix<i32, rowcol::typenum::U3, rowcol::typenum::U2> { rowcol::matrix![[1, 2], [3, 4], [5, 6]] } // + matrix! of three rows by path, with nothing imported
}
mod imported {
    use rowcol::{matrix, vector};
    fn v3() -> i32 { let v = vector![1, 2, 3]; v[2] } // + vector! imported alone
    fn m23() -> i32 { let m = matrix![[1, 2, 3], [4, 5, 6]]; m[(1, 2)] } // + matrix! imported alone
    fn both() -> i32 { (matrix![[1, 2], [3, 4]] * vector![1, 2])[1] } // + both macros in an expression
}
mod shadowed {
    struct U0;
    struct U1;
    struct Vector;
    struct Matrix;
    struct Sum;
    trait Add {}
    trait ArrayLen {}
    mod std {}
    mod core {}
    mod alloc {}
    mod typenum {}
    mod consts {}
    mod vector {}
    mod matrix {}
    mod prelude {}
    fn v3() -> i32 { let v = rowcol::vector![1, 2, 3]; v[2] } // + vector! where all names it could use mean something else
    fn m23() -> i32 { let m = rowcol::matrix![[1, 2, 3], [4, 5, 6]]; m[(1, 2)] } // + matrix! where all names it could use mean something else
    fn locals() -> i32 { let (v, n, i, e, elem, first, rest, arr, a, m) = (1, 2, 3, 4, 5, 6, 7, 8, 9, 10); rowcol::vector![v + n, i, e, elem, first, rest, arr, a, m][0] } // + vector! of local variables of any name
    fn nested() -> i32 { rowcol::vector![rowcol::vector![1, 2], rowcol::vector![3, 4]][1][0] } // + vector! of vector!
    fn blocks(x: Option<i32>) -> Option<i32> { Some(rowcol::matrix![[x?, { 1 }], [if true { 2 } else { 3 }, -4]][(0, 0)]) } // + matrix! of expressions of any form
}

fn main() {}
