//! A vector of three elements does not split into chunks of none: with `illshaped`, the compiler must refuse this.  (It says so
//! in an error about the type-level remainder that names no line, so this program is on its own.)
#![allow(unused)]
use rowcol::prelude::*;

fn chunks(v: Vector<i32, U3>) {
    #[cfg(feature = "illshaped")]
    let _: Option<Vector<i32, U0>> = v.into_chunks::<U0>().next();
}

fn main() {}
