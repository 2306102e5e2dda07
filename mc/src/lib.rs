//! Stateless model checker for sequential code, and the universal / tracked element types the
//! checks of /verif use.  See ../DESIGN.md.
#![allow(clippy::all)]

pub mod explore;
pub mod fam;
pub mod kindops;
pub mod kinds;
pub mod ring;
pub mod seq;
pub mod sym;
pub mod shapes;
pub mod term;
pub mod tok;

pub use explore::*;
