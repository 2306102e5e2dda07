//! Lists of lengths and shapes (generated by tools/gen_shapes.py).
pub use rowcol::typenum::consts::*;

/// `$m!(len, value, args...)` for every supported length.
#[macro_export]
macro_rules! for_lens {
    ($m:ident $(, $a:tt)*) => {
        $m!(U0, 0usize $(, $a)*); $m!(U1, 1usize $(, $a)*); $m!(U2, 2usize $(, $a)*); $m!(U3, 3usize $(, $a)*); $m!(U4, 4usize $(, $a)*); $m!(U5, 5usize $(, $a)*); $m!(U6, 6usize $(, $a)*); $m!(U7, 7usize $(, $a)*); $m!(U8, 8usize $(, $a)*); $m!(U9, 9usize $(, $a)*); $m!(U10, 10usize $(, $a)*); $m!(U11, 11usize $(, $a)*); $m!(U12, 12usize $(, $a)*); $m!(U13, 13usize $(, $a)*); $m!(U14, 14usize $(, $a)*); $m!(U15, 15usize $(, $a)*); $m!(U16, 16usize $(, $a)*); $m!(U17, 17usize $(, $a)*); $m!(U18, 18usize $(, $a)*); $m!(U19, 19usize $(, $a)*); $m!(U20, 20usize $(, $a)*); $m!(U21, 21usize $(, $a)*); $m!(U22, 22usize $(, $a)*); $m!(U23, 23usize $(, $a)*); $m!(U24, 24usize $(, $a)*); $m!(U25, 25usize $(, $a)*); $m!(U26, 26usize $(, $a)*); $m!(U27, 27usize $(, $a)*); $m!(U28, 28usize $(, $a)*); $m!(U29, 29usize $(, $a)*); $m!(U30, 30usize $(, $a)*); $m!(U31, 31usize $(, $a)*); $m!(U32, 32usize $(, $a)*);
    };
}

/// Lengths 0..=4.
#[macro_export]
macro_rules! for_tiny_lens {
    ($m:ident $(, $a:tt)*) => {
        $m!(U0, 0usize $(, $a)*); $m!(U1, 1usize $(, $a)*); $m!(U2, 2usize $(, $a)*); $m!(U3, 3usize $(, $a)*); $m!(U4, 4usize $(, $a)*);
    };
}

/// Lengths 0..=6.
#[macro_export]
macro_rules! for_small_lens {
    ($m:ident $(, $a:tt)*) => {
        $m!(U0, 0usize $(, $a)*); $m!(U1, 1usize $(, $a)*); $m!(U2, 2usize $(, $a)*); $m!(U3, 3usize $(, $a)*); $m!(U4, 4usize $(, $a)*); $m!(U5, 5usize $(, $a)*); $m!(U6, 6usize $(, $a)*);
    };
}

/// All shapes with at most 4 rows and columns.
#[macro_export]
macro_rules! for_small_shapes {
    ($m:ident $(, $a:tt)*) => {
        $m!(U0, U0 $(, $a)*); $m!(U0, U1 $(, $a)*); $m!(U0, U2 $(, $a)*); $m!(U0, U3 $(, $a)*); $m!(U0, U4 $(, $a)*); $m!(U1, U0 $(, $a)*);
        $m!(U1, U1 $(, $a)*); $m!(U1, U2 $(, $a)*); $m!(U1, U3 $(, $a)*); $m!(U1, U4 $(, $a)*); $m!(U2, U0 $(, $a)*); $m!(U2, U1 $(, $a)*);
        $m!(U2, U2 $(, $a)*); $m!(U2, U3 $(, $a)*); $m!(U2, U4 $(, $a)*); $m!(U3, U0 $(, $a)*); $m!(U3, U1 $(, $a)*); $m!(U3, U2 $(, $a)*);
        $m!(U3, U3 $(, $a)*); $m!(U3, U4 $(, $a)*); $m!(U4, U0 $(, $a)*); $m!(U4, U1 $(, $a)*); $m!(U4, U2 $(, $a)*); $m!(U4, U3 $(, $a)*);
        $m!(U4, U4 $(, $a)*);
    };
}

/// All shapes with at most 9 rows and columns.
#[macro_export]
macro_rules! for_mid_shapes {
    ($m:ident $(, $a:tt)*) => {
        $m!(U0, U0 $(, $a)*); $m!(U0, U1 $(, $a)*); $m!(U0, U2 $(, $a)*); $m!(U0, U3 $(, $a)*); $m!(U0, U4 $(, $a)*); $m!(U0, U5 $(, $a)*);
        $m!(U0, U6 $(, $a)*); $m!(U0, U7 $(, $a)*); $m!(U0, U8 $(, $a)*); $m!(U0, U9 $(, $a)*); $m!(U1, U0 $(, $a)*); $m!(U1, U1 $(, $a)*);
        $m!(U1, U2 $(, $a)*); $m!(U1, U3 $(, $a)*); $m!(U1, U4 $(, $a)*); $m!(U1, U5 $(, $a)*); $m!(U1, U6 $(, $a)*); $m!(U1, U7 $(, $a)*);
        $m!(U1, U8 $(, $a)*); $m!(U1, U9 $(, $a)*); $m!(U2, U0 $(, $a)*); $m!(U2, U1 $(, $a)*); $m!(U2, U2 $(, $a)*); $m!(U2, U3 $(, $a)*);
        $m!(U2, U4 $(, $a)*); $m!(U2, U5 $(, $a)*); $m!(U2, U6 $(, $a)*); $m!(U2, U7 $(, $a)*); $m!(U2, U8 $(, $a)*); $m!(U2, U9 $(, $a)*);
        $m!(U3, U0 $(, $a)*); $m!(U3, U1 $(, $a)*); $m!(U3, U2 $(, $a)*); $m!(U3, U3 $(, $a)*); $m!(U3, U4 $(, $a)*); $m!(U3, U5 $(, $a)*);
        $m!(U3, U6 $(, $a)*); $m!(U3, U7 $(, $a)*); $m!(U3, U8 $(, $a)*); $m!(U3, U9 $(, $a)*); $m!(U4, U0 $(, $a)*); $m!(U4, U1 $(, $a)*);
        $m!(U4, U2 $(, $a)*); $m!(U4, U3 $(, $a)*); $m!(U4, U4 $(, $a)*); $m!(U4, U5 $(, $a)*); $m!(U4, U6 $(, $a)*); $m!(U4, U7 $(, $a)*);
        $m!(U4, U8 $(, $a)*); $m!(U4, U9 $(, $a)*); $m!(U5, U0 $(, $a)*); $m!(U5, U1 $(, $a)*); $m!(U5, U2 $(, $a)*); $m!(U5, U3 $(, $a)*);
        $m!(U5, U4 $(, $a)*); $m!(U5, U5 $(, $a)*); $m!(U5, U6 $(, $a)*); $m!(U5, U7 $(, $a)*); $m!(U5, U8 $(, $a)*); $m!(U5, U9 $(, $a)*);
        $m!(U6, U0 $(, $a)*); $m!(U6, U1 $(, $a)*); $m!(U6, U2 $(, $a)*); $m!(U6, U3 $(, $a)*); $m!(U6, U4 $(, $a)*); $m!(U6, U5 $(, $a)*);
        $m!(U6, U6 $(, $a)*); $m!(U6, U7 $(, $a)*); $m!(U6, U8 $(, $a)*); $m!(U6, U9 $(, $a)*); $m!(U7, U0 $(, $a)*); $m!(U7, U1 $(, $a)*);
        $m!(U7, U2 $(, $a)*); $m!(U7, U3 $(, $a)*); $m!(U7, U4 $(, $a)*); $m!(U7, U5 $(, $a)*); $m!(U7, U6 $(, $a)*); $m!(U7, U7 $(, $a)*);
        $m!(U7, U8 $(, $a)*); $m!(U7, U9 $(, $a)*); $m!(U8, U0 $(, $a)*); $m!(U8, U1 $(, $a)*); $m!(U8, U2 $(, $a)*); $m!(U8, U3 $(, $a)*);
        $m!(U8, U4 $(, $a)*); $m!(U8, U5 $(, $a)*); $m!(U8, U6 $(, $a)*); $m!(U8, U7 $(, $a)*); $m!(U8, U8 $(, $a)*); $m!(U8, U9 $(, $a)*);
        $m!(U9, U0 $(, $a)*); $m!(U9, U1 $(, $a)*); $m!(U9, U2 $(, $a)*); $m!(U9, U3 $(, $a)*); $m!(U9, U4 $(, $a)*); $m!(U9, U5 $(, $a)*);
        $m!(U9, U6 $(, $a)*); $m!(U9, U7 $(, $a)*); $m!(U9, U8 $(, $a)*); $m!(U9, U9 $(, $a)*);
    };
}

/// All 1089 supported shapes.
#[macro_export]
macro_rules! for_all_shapes {
    ($m:ident $(, $a:tt)*) => {
        $m!(U0, U0 $(, $a)*); $m!(U0, U1 $(, $a)*); $m!(U0, U2 $(, $a)*); $m!(U0, U3 $(, $a)*); $m!(U0, U4 $(, $a)*); $m!(U0, U5 $(, $a)*);
        $m!(U0, U6 $(, $a)*); $m!(U0, U7 $(, $a)*); $m!(U0, U8 $(, $a)*); $m!(U0, U9 $(, $a)*); $m!(U0, U10 $(, $a)*); $m!(U0, U11 $(, $a)*);
        $m!(U0, U12 $(, $a)*); $m!(U0, U13 $(, $a)*); $m!(U0, U14 $(, $a)*); $m!(U0, U15 $(, $a)*); $m!(U0, U16 $(, $a)*); $m!(U0, U17 $(, $a)*);
        $m!(U0, U18 $(, $a)*); $m!(U0, U19 $(, $a)*); $m!(U0, U20 $(, $a)*); $m!(U0, U21 $(, $a)*); $m!(U0, U22 $(, $a)*); $m!(U0, U23 $(, $a)*);
        $m!(U0, U24 $(, $a)*); $m!(U0, U25 $(, $a)*); $m!(U0, U26 $(, $a)*); $m!(U0, U27 $(, $a)*); $m!(U0, U28 $(, $a)*); $m!(U0, U29 $(, $a)*);
        $m!(U0, U30 $(, $a)*); $m!(U0, U31 $(, $a)*); $m!(U0, U32 $(, $a)*); $m!(U1, U0 $(, $a)*); $m!(U1, U1 $(, $a)*); $m!(U1, U2 $(, $a)*);
        $m!(U1, U3 $(, $a)*); $m!(U1, U4 $(, $a)*); $m!(U1, U5 $(, $a)*); $m!(U1, U6 $(, $a)*); $m!(U1, U7 $(, $a)*); $m!(U1, U8 $(, $a)*);
        $m!(U1, U9 $(, $a)*); $m!(U1, U10 $(, $a)*); $m!(U1, U11 $(, $a)*); $m!(U1, U12 $(, $a)*); $m!(U1, U13 $(, $a)*); $m!(U1, U14 $(, $a)*);
        $m!(U1, U15 $(, $a)*); $m!(U1, U16 $(, $a)*); $m!(U1, U17 $(, $a)*); $m!(U1, U18 $(, $a)*); $m!(U1, U19 $(, $a)*); $m!(U1, U20 $(, $a)*);
        $m!(U1, U21 $(, $a)*); $m!(U1, U22 $(, $a)*); $m!(U1, U23 $(, $a)*); $m!(U1, U24 $(, $a)*); $m!(U1, U25 $(, $a)*); $m!(U1, U26 $(, $a)*);
        $m!(U1, U27 $(, $a)*); $m!(U1, U28 $(, $a)*); $m!(U1, U29 $(, $a)*); $m!(U1, U30 $(, $a)*); $m!(U1, U31 $(, $a)*); $m!(U1, U32 $(, $a)*);
        $m!(U2, U0 $(, $a)*); $m!(U2, U1 $(, $a)*); $m!(U2, U2 $(, $a)*); $m!(U2, U3 $(, $a)*); $m!(U2, U4 $(, $a)*); $m!(U2, U5 $(, $a)*);
        $m!(U2, U6 $(, $a)*); $m!(U2, U7 $(, $a)*); $m!(U2, U8 $(, $a)*); $m!(U2, U9 $(, $a)*); $m!(U2, U10 $(, $a)*); $m!(U2, U11 $(, $a)*);
        $m!(U2, U12 $(, $a)*); $m!(U2, U13 $(, $a)*); $m!(U2, U14 $(, $a)*); $m!(U2, U15 $(, $a)*); $m!(U2, U16 $(, $a)*); $m!(U2, U17 $(, $a)*);
        $m!(U2, U18 $(, $a)*); $m!(U2, U19 $(, $a)*); $m!(U2, U20 $(, $a)*); $m!(U2, U21 $(, $a)*); $m!(U2, U22 $(, $a)*); $m!(U2, U23 $(, $a)*);
        $m!(U2, U24 $(, $a)*); $m!(U2, U25 $(, $a)*); $m!(U2, U26 $(, $a)*); $m!(U2, U27 $(, $a)*); $m!(U2, U28 $(, $a)*); $m!(U2, U29 $(, $a)*);
        $m!(U2, U30 $(, $a)*); $m!(U2, U31 $(, $a)*); $m!(U2, U32 $(, $a)*); $m!(U3, U0 $(, $a)*); $m!(U3, U1 $(, $a)*); $m!(U3, U2 $(, $a)*);
        $m!(U3, U3 $(, $a)*); $m!(U3, U4 $(, $a)*); $m!(U3, U5 $(, $a)*); $m!(U3, U6 $(, $a)*); $m!(U3, U7 $(, $a)*); $m!(U3, U8 $(, $a)*);
        $m!(U3, U9 $(, $a)*); $m!(U3, U10 $(, $a)*); $m!(U3, U11 $(, $a)*); $m!(U3, U12 $(, $a)*); $m!(U3, U13 $(, $a)*); $m!(U3, U14 $(, $a)*);
        $m!(U3, U15 $(, $a)*); $m!(U3, U16 $(, $a)*); $m!(U3, U17 $(, $a)*); $m!(U3, U18 $(, $a)*); $m!(U3, U19 $(, $a)*); $m!(U3, U20 $(, $a)*);
        $m!(U3, U21 $(, $a)*); $m!(U3, U22 $(, $a)*); $m!(U3, U23 $(, $a)*); $m!(U3, U24 $(, $a)*); $m!(U3, U25 $(, $a)*); $m!(U3, U26 $(, $a)*);
        $m!(U3, U27 $(, $a)*); $m!(U3, U28 $(, $a)*); $m!(U3, U29 $(, $a)*); $m!(U3, U30 $(, $a)*); $m!(U3, U31 $(, $a)*); $m!(U3, U32 $(, $a)*);
        $m!(U4, U0 $(, $a)*); $m!(U4, U1 $(, $a)*); $m!(U4, U2 $(, $a)*); $m!(U4, U3 $(, $a)*); $m!(U4, U4 $(, $a)*); $m!(U4, U5 $(, $a)*);
        $m!(U4, U6 $(, $a)*); $m!(U4, U7 $(, $a)*); $m!(U4, U8 $(, $a)*); $m!(U4, U9 $(, $a)*); $m!(U4, U10 $(, $a)*); $m!(U4, U11 $(, $a)*);
        $m!(U4, U12 $(, $a)*); $m!(U4, U13 $(, $a)*); $m!(U4, U14 $(, $a)*); $m!(U4, U15 $(, $a)*); $m!(U4, U16 $(, $a)*); $m!(U4, U17 $(, $a)*);
        $m!(U4, U18 $(, $a)*); $m!(U4, U19 $(, $a)*); $m!(U4, U20 $(, $a)*); $m!(U4, U21 $(, $a)*); $m!(U4, U22 $(, $a)*); $m!(U4, U23 $(, $a)*);
        $m!(U4, U24 $(, $a)*); $m!(U4, U25 $(, $a)*); $m!(U4, U26 $(, $a)*); $m!(U4, U27 $(, $a)*); $m!(U4, U28 $(, $a)*); $m!(U4, U29 $(, $a)*);
        $m!(U4, U30 $(, $a)*); $m!(U4, U31 $(, $a)*); $m!(U4, U32 $(, $a)*); $m!(U5, U0 $(, $a)*); $m!(U5, U1 $(, $a)*); $m!(U5, U2 $(, $a)*);
        $m!(U5, U3 $(, $a)*); $m!(U5, U4 $(, $a)*); $m!(U5, U5 $(, $a)*); $m!(U5, U6 $(, $a)*); $m!(U5, U7 $(, $a)*); $m!(U5, U8 $(, $a)*);
        $m!(U5, U9 $(, $a)*); $m!(U5, U10 $(, $a)*); $m!(U5, U11 $(, $a)*); $m!(U5, U12 $(, $a)*); $m!(U5, U13 $(, $a)*); $m!(U5, U14 $(, $a)*);
        $m!(U5, U15 $(, $a)*); $m!(U5, U16 $(, $a)*); $m!(U5, U17 $(, $a)*); $m!(U5, U18 $(, $a)*); $m!(U5, U19 $(, $a)*); $m!(U5, U20 $(, $a)*);
        $m!(U5, U21 $(, $a)*); $m!(U5, U22 $(, $a)*); $m!(U5, U23 $(, $a)*); $m!(U5, U24 $(, $a)*); $m!(U5, U25 $(, $a)*); $m!(U5, U26 $(, $a)*);
        $m!(U5, U27 $(, $a)*); $m!(U5, U28 $(, $a)*); $m!(U5, U29 $(, $a)*); $m!(U5, U30 $(, $a)*); $m!(U5, U31 $(, $a)*); $m!(U5, U32 $(, $a)*);
        $m!(U6, U0 $(, $a)*); $m!(U6, U1 $(, $a)*); $m!(U6, U2 $(, $a)*); $m!(U6, U3 $(, $a)*); $m!(U6, U4 $(, $a)*); $m!(U6, U5 $(, $a)*);
        $m!(U6, U6 $(, $a)*); $m!(U6, U7 $(, $a)*); $m!(U6, U8 $(, $a)*); $m!(U6, U9 $(, $a)*); $m!(U6, U10 $(, $a)*); $m!(U6, U11 $(, $a)*);
        $m!(U6, U12 $(, $a)*); $m!(U6, U13 $(, $a)*); $m!(U6, U14 $(, $a)*); $m!(U6, U15 $(, $a)*); $m!(U6, U16 $(, $a)*); $m!(U6, U17 $(, $a)*);
        $m!(U6, U18 $(, $a)*); $m!(U6, U19 $(, $a)*); $m!(U6, U20 $(, $a)*); $m!(U6, U21 $(, $a)*); $m!(U6, U22 $(, $a)*); $m!(U6, U23 $(, $a)*);
        $m!(U6, U24 $(, $a)*); $m!(U6, U25 $(, $a)*); $m!(U6, U26 $(, $a)*); $m!(U6, U27 $(, $a)*); $m!(U6, U28 $(, $a)*); $m!(U6, U29 $(, $a)*);
        $m!(U6, U30 $(, $a)*); $m!(U6, U31 $(, $a)*); $m!(U6, U32 $(, $a)*); $m!(U7, U0 $(, $a)*); $m!(U7, U1 $(, $a)*); $m!(U7, U2 $(, $a)*);
        $m!(U7, U3 $(, $a)*); $m!(U7, U4 $(, $a)*); $m!(U7, U5 $(, $a)*); $m!(U7, U6 $(, $a)*); $m!(U7, U7 $(, $a)*); $m!(U7, U8 $(, $a)*);
        $m!(U7, U9 $(, $a)*); $m!(U7, U10 $(, $a)*); $m!(U7, U11 $(, $a)*); $m!(U7, U12 $(, $a)*); $m!(U7, U13 $(, $a)*); $m!(U7, U14 $(, $a)*);
        $m!(U7, U15 $(, $a)*); $m!(U7, U16 $(, $a)*); $m!(U7, U17 $(, $a)*); $m!(U7, U18 $(, $a)*); $m!(U7, U19 $(, $a)*); $m!(U7, U20 $(, $a)*);
        $m!(U7, U21 $(, $a)*); $m!(U7, U22 $(, $a)*); $m!(U7, U23 $(, $a)*); $m!(U7, U24 $(, $a)*); $m!(U7, U25 $(, $a)*); $m!(U7, U26 $(, $a)*);
        $m!(U7, U27 $(, $a)*); $m!(U7, U28 $(, $a)*); $m!(U7, U29 $(, $a)*); $m!(U7, U30 $(, $a)*); $m!(U7, U31 $(, $a)*); $m!(U7, U32 $(, $a)*);
        $m!(U8, U0 $(, $a)*); $m!(U8, U1 $(, $a)*); $m!(U8, U2 $(, $a)*); $m!(U8, U3 $(, $a)*); $m!(U8, U4 $(, $a)*); $m!(U8, U5 $(, $a)*);
        $m!(U8, U6 $(, $a)*); $m!(U8, U7 $(, $a)*); $m!(U8, U8 $(, $a)*); $m!(U8, U9 $(, $a)*); $m!(U8, U10 $(, $a)*); $m!(U8, U11 $(, $a)*);
        $m!(U8, U12 $(, $a)*); $m!(U8, U13 $(, $a)*); $m!(U8, U14 $(, $a)*); $m!(U8, U15 $(, $a)*); $m!(U8, U16 $(, $a)*); $m!(U8, U17 $(, $a)*);
        $m!(U8, U18 $(, $a)*); $m!(U8, U19 $(, $a)*); $m!(U8, U20 $(, $a)*); $m!(U8, U21 $(, $a)*); $m!(U8, U22 $(, $a)*); $m!(U8, U23 $(, $a)*);
        $m!(U8, U24 $(, $a)*); $m!(U8, U25 $(, $a)*); $m!(U8, U26 $(, $a)*); $m!(U8, U27 $(, $a)*); $m!(U8, U28 $(, $a)*); $m!(U8, U29 $(, $a)*);
        $m!(U8, U30 $(, $a)*); $m!(U8, U31 $(, $a)*); $m!(U8, U32 $(, $a)*); $m!(U9, U0 $(, $a)*); $m!(U9, U1 $(, $a)*); $m!(U9, U2 $(, $a)*);
        $m!(U9, U3 $(, $a)*); $m!(U9, U4 $(, $a)*); $m!(U9, U5 $(, $a)*); $m!(U9, U6 $(, $a)*); $m!(U9, U7 $(, $a)*); $m!(U9, U8 $(, $a)*);
        $m!(U9, U9 $(, $a)*); $m!(U9, U10 $(, $a)*); $m!(U9, U11 $(, $a)*); $m!(U9, U12 $(, $a)*); $m!(U9, U13 $(, $a)*); $m!(U9, U14 $(, $a)*);
        $m!(U9, U15 $(, $a)*); $m!(U9, U16 $(, $a)*); $m!(U9, U17 $(, $a)*); $m!(U9, U18 $(, $a)*); $m!(U9, U19 $(, $a)*); $m!(U9, U20 $(, $a)*);
        $m!(U9, U21 $(, $a)*); $m!(U9, U22 $(, $a)*); $m!(U9, U23 $(, $a)*); $m!(U9, U24 $(, $a)*); $m!(U9, U25 $(, $a)*); $m!(U9, U26 $(, $a)*);
        $m!(U9, U27 $(, $a)*); $m!(U9, U28 $(, $a)*); $m!(U9, U29 $(, $a)*); $m!(U9, U30 $(, $a)*); $m!(U9, U31 $(, $a)*); $m!(U9, U32 $(, $a)*);
        $m!(U10, U0 $(, $a)*); $m!(U10, U1 $(, $a)*); $m!(U10, U2 $(, $a)*); $m!(U10, U3 $(, $a)*); $m!(U10, U4 $(, $a)*); $m!(U10, U5 $(, $a)*);
        $m!(U10, U6 $(, $a)*); $m!(U10, U7 $(, $a)*); $m!(U10, U8 $(, $a)*); $m!(U10, U9 $(, $a)*); $m!(U10, U10 $(, $a)*); $m!(U10, U11 $(, $a)*);
        $m!(U10, U12 $(, $a)*); $m!(U10, U13 $(, $a)*); $m!(U10, U14 $(, $a)*); $m!(U10, U15 $(, $a)*); $m!(U10, U16 $(, $a)*); $m!(U10, U17 $(, $a)*);
        $m!(U10, U18 $(, $a)*); $m!(U10, U19 $(, $a)*); $m!(U10, U20 $(, $a)*); $m!(U10, U21 $(, $a)*); $m!(U10, U22 $(, $a)*); $m!(U10, U23 $(, $a)*);
        $m!(U10, U24 $(, $a)*); $m!(U10, U25 $(, $a)*); $m!(U10, U26 $(, $a)*); $m!(U10, U27 $(, $a)*); $m!(U10, U28 $(, $a)*); $m!(U10, U29 $(, $a)*);
        $m!(U10, U30 $(, $a)*); $m!(U10, U31 $(, $a)*); $m!(U10, U32 $(, $a)*); $m!(U11, U0 $(, $a)*); $m!(U11, U1 $(, $a)*); $m!(U11, U2 $(, $a)*);
        $m!(U11, U3 $(, $a)*); $m!(U11, U4 $(, $a)*); $m!(U11, U5 $(, $a)*); $m!(U11, U6 $(, $a)*); $m!(U11, U7 $(, $a)*); $m!(U11, U8 $(, $a)*);
        $m!(U11, U9 $(, $a)*); $m!(U11, U10 $(, $a)*); $m!(U11, U11 $(, $a)*); $m!(U11, U12 $(, $a)*); $m!(U11, U13 $(, $a)*); $m!(U11, U14 $(, $a)*);
        $m!(U11, U15 $(, $a)*); $m!(U11, U16 $(, $a)*); $m!(U11, U17 $(, $a)*); $m!(U11, U18 $(, $a)*); $m!(U11, U19 $(, $a)*); $m!(U11, U20 $(, $a)*);
        $m!(U11, U21 $(, $a)*); $m!(U11, U22 $(, $a)*); $m!(U11, U23 $(, $a)*); $m!(U11, U24 $(, $a)*); $m!(U11, U25 $(, $a)*); $m!(U11, U26 $(, $a)*);
        $m!(U11, U27 $(, $a)*); $m!(U11, U28 $(, $a)*); $m!(U11, U29 $(, $a)*); $m!(U11, U30 $(, $a)*); $m!(U11, U31 $(, $a)*); $m!(U11, U32 $(, $a)*);
        $m!(U12, U0 $(, $a)*); $m!(U12, U1 $(, $a)*); $m!(U12, U2 $(, $a)*); $m!(U12, U3 $(, $a)*); $m!(U12, U4 $(, $a)*); $m!(U12, U5 $(, $a)*);
        $m!(U12, U6 $(, $a)*); $m!(U12, U7 $(, $a)*); $m!(U12, U8 $(, $a)*); $m!(U12, U9 $(, $a)*); $m!(U12, U10 $(, $a)*); $m!(U12, U11 $(, $a)*);
        $m!(U12, U12 $(, $a)*); $m!(U12, U13 $(, $a)*); $m!(U12, U14 $(, $a)*); $m!(U12, U15 $(, $a)*); $m!(U12, U16 $(, $a)*); $m!(U12, U17 $(, $a)*);
        $m!(U12, U18 $(, $a)*); $m!(U12, U19 $(, $a)*); $m!(U12, U20 $(, $a)*); $m!(U12, U21 $(, $a)*); $m!(U12, U22 $(, $a)*); $m!(U12, U23 $(, $a)*);
        $m!(U12, U24 $(, $a)*); $m!(U12, U25 $(, $a)*); $m!(U12, U26 $(, $a)*); $m!(U12, U27 $(, $a)*); $m!(U12, U28 $(, $a)*); $m!(U12, U29 $(, $a)*);
        $m!(U12, U30 $(, $a)*); $m!(U12, U31 $(, $a)*); $m!(U12, U32 $(, $a)*); $m!(U13, U0 $(, $a)*); $m!(U13, U1 $(, $a)*); $m!(U13, U2 $(, $a)*);
        $m!(U13, U3 $(, $a)*); $m!(U13, U4 $(, $a)*); $m!(U13, U5 $(, $a)*); $m!(U13, U6 $(, $a)*); $m!(U13, U7 $(, $a)*); $m!(U13, U8 $(, $a)*);
        $m!(U13, U9 $(, $a)*); $m!(U13, U10 $(, $a)*); $m!(U13, U11 $(, $a)*); $m!(U13, U12 $(, $a)*); $m!(U13, U13 $(, $a)*); $m!(U13, U14 $(, $a)*);
        $m!(U13, U15 $(, $a)*); $m!(U13, U16 $(, $a)*); $m!(U13, U17 $(, $a)*); $m!(U13, U18 $(, $a)*); $m!(U13, U19 $(, $a)*); $m!(U13, U20 $(, $a)*);
        $m!(U13, U21 $(, $a)*); $m!(U13, U22 $(, $a)*); $m!(U13, U23 $(, $a)*); $m!(U13, U24 $(, $a)*); $m!(U13, U25 $(, $a)*); $m!(U13, U26 $(, $a)*);
        $m!(U13, U27 $(, $a)*); $m!(U13, U28 $(, $a)*); $m!(U13, U29 $(, $a)*); $m!(U13, U30 $(, $a)*); $m!(U13, U31 $(, $a)*); $m!(U13, U32 $(, $a)*);
        $m!(U14, U0 $(, $a)*); $m!(U14, U1 $(, $a)*); $m!(U14, U2 $(, $a)*); $m!(U14, U3 $(, $a)*); $m!(U14, U4 $(, $a)*); $m!(U14, U5 $(, $a)*);
        $m!(U14, U6 $(, $a)*); $m!(U14, U7 $(, $a)*); $m!(U14, U8 $(, $a)*); $m!(U14, U9 $(, $a)*); $m!(U14, U10 $(, $a)*); $m!(U14, U11 $(, $a)*);
        $m!(U14, U12 $(, $a)*); $m!(U14, U13 $(, $a)*); $m!(U14, U14 $(, $a)*); $m!(U14, U15 $(, $a)*); $m!(U14, U16 $(, $a)*); $m!(U14, U17 $(, $a)*);
        $m!(U14, U18 $(, $a)*); $m!(U14, U19 $(, $a)*); $m!(U14, U20 $(, $a)*); $m!(U14, U21 $(, $a)*); $m!(U14, U22 $(, $a)*); $m!(U14, U23 $(, $a)*);
        $m!(U14, U24 $(, $a)*); $m!(U14, U25 $(, $a)*); $m!(U14, U26 $(, $a)*); $m!(U14, U27 $(, $a)*); $m!(U14, U28 $(, $a)*); $m!(U14, U29 $(, $a)*);
        $m!(U14, U30 $(, $a)*); $m!(U14, U31 $(, $a)*); $m!(U14, U32 $(, $a)*); $m!(U15, U0 $(, $a)*); $m!(U15, U1 $(, $a)*); $m!(U15, U2 $(, $a)*);
        $m!(U15, U3 $(, $a)*); $m!(U15, U4 $(, $a)*); $m!(U15, U5 $(, $a)*); $m!(U15, U6 $(, $a)*); $m!(U15, U7 $(, $a)*); $m!(U15, U8 $(, $a)*);
        $m!(U15, U9 $(, $a)*); $m!(U15, U10 $(, $a)*); $m!(U15, U11 $(, $a)*); $m!(U15, U12 $(, $a)*); $m!(U15, U13 $(, $a)*); $m!(U15, U14 $(, $a)*);
        $m!(U15, U15 $(, $a)*); $m!(U15, U16 $(, $a)*); $m!(U15, U17 $(, $a)*); $m!(U15, U18 $(, $a)*); $m!(U15, U19 $(, $a)*); $m!(U15, U20 $(, $a)*);
        $m!(U15, U21 $(, $a)*); $m!(U15, U22 $(, $a)*); $m!(U15, U23 $(, $a)*); $m!(U15, U24 $(, $a)*); $m!(U15, U25 $(, $a)*); $m!(U15, U26 $(, $a)*);
        $m!(U15, U27 $(, $a)*); $m!(U15, U28 $(, $a)*); $m!(U15, U29 $(, $a)*); $m!(U15, U30 $(, $a)*); $m!(U15, U31 $(, $a)*); $m!(U15, U32 $(, $a)*);
        $m!(U16, U0 $(, $a)*); $m!(U16, U1 $(, $a)*); $m!(U16, U2 $(, $a)*); $m!(U16, U3 $(, $a)*); $m!(U16, U4 $(, $a)*); $m!(U16, U5 $(, $a)*);
        $m!(U16, U6 $(, $a)*); $m!(U16, U7 $(, $a)*); $m!(U16, U8 $(, $a)*); $m!(U16, U9 $(, $a)*); $m!(U16, U10 $(, $a)*); $m!(U16, U11 $(, $a)*);
        $m!(U16, U12 $(, $a)*); $m!(U16, U13 $(, $a)*); $m!(U16, U14 $(, $a)*); $m!(U16, U15 $(, $a)*); $m!(U16, U16 $(, $a)*); $m!(U16, U17 $(, $a)*);
        $m!(U16, U18 $(, $a)*); $m!(U16, U19 $(, $a)*); $m!(U16, U20 $(, $a)*); $m!(U16, U21 $(, $a)*); $m!(U16, U22 $(, $a)*); $m!(U16, U23 $(, $a)*);
        $m!(U16, U24 $(, $a)*); $m!(U16, U25 $(, $a)*); $m!(U16, U26 $(, $a)*); $m!(U16, U27 $(, $a)*); $m!(U16, U28 $(, $a)*); $m!(U16, U29 $(, $a)*);
        $m!(U16, U30 $(, $a)*); $m!(U16, U31 $(, $a)*); $m!(U16, U32 $(, $a)*); $m!(U17, U0 $(, $a)*); $m!(U17, U1 $(, $a)*); $m!(U17, U2 $(, $a)*);
        $m!(U17, U3 $(, $a)*); $m!(U17, U4 $(, $a)*); $m!(U17, U5 $(, $a)*); $m!(U17, U6 $(, $a)*); $m!(U17, U7 $(, $a)*); $m!(U17, U8 $(, $a)*);
        $m!(U17, U9 $(, $a)*); $m!(U17, U10 $(, $a)*); $m!(U17, U11 $(, $a)*); $m!(U17, U12 $(, $a)*); $m!(U17, U13 $(, $a)*); $m!(U17, U14 $(, $a)*);
        $m!(U17, U15 $(, $a)*); $m!(U17, U16 $(, $a)*); $m!(U17, U17 $(, $a)*); $m!(U17, U18 $(, $a)*); $m!(U17, U19 $(, $a)*); $m!(U17, U20 $(, $a)*);
        $m!(U17, U21 $(, $a)*); $m!(U17, U22 $(, $a)*); $m!(U17, U23 $(, $a)*); $m!(U17, U24 $(, $a)*); $m!(U17, U25 $(, $a)*); $m!(U17, U26 $(, $a)*);
        $m!(U17, U27 $(, $a)*); $m!(U17, U28 $(, $a)*); $m!(U17, U29 $(, $a)*); $m!(U17, U30 $(, $a)*); $m!(U17, U31 $(, $a)*); $m!(U17, U32 $(, $a)*);
        $m!(U18, U0 $(, $a)*); $m!(U18, U1 $(, $a)*); $m!(U18, U2 $(, $a)*); $m!(U18, U3 $(, $a)*); $m!(U18, U4 $(, $a)*); $m!(U18, U5 $(, $a)*);
        $m!(U18, U6 $(, $a)*); $m!(U18, U7 $(, $a)*); $m!(U18, U8 $(, $a)*); $m!(U18, U9 $(, $a)*); $m!(U18, U10 $(, $a)*); $m!(U18, U11 $(, $a)*);
        $m!(U18, U12 $(, $a)*); $m!(U18, U13 $(, $a)*); $m!(U18, U14 $(, $a)*); $m!(U18, U15 $(, $a)*); $m!(U18, U16 $(, $a)*); $m!(U18, U17 $(, $a)*);
        $m!(U18, U18 $(, $a)*); $m!(U18, U19 $(, $a)*); $m!(U18, U20 $(, $a)*); $m!(U18, U21 $(, $a)*); $m!(U18, U22 $(, $a)*); $m!(U18, U23 $(, $a)*);
        $m!(U18, U24 $(, $a)*); $m!(U18, U25 $(, $a)*); $m!(U18, U26 $(, $a)*); $m!(U18, U27 $(, $a)*); $m!(U18, U28 $(, $a)*); $m!(U18, U29 $(, $a)*);
        $m!(U18, U30 $(, $a)*); $m!(U18, U31 $(, $a)*); $m!(U18, U32 $(, $a)*); $m!(U19, U0 $(, $a)*); $m!(U19, U1 $(, $a)*); $m!(U19, U2 $(, $a)*);
        $m!(U19, U3 $(, $a)*); $m!(U19, U4 $(, $a)*); $m!(U19, U5 $(, $a)*); $m!(U19, U6 $(, $a)*); $m!(U19, U7 $(, $a)*); $m!(U19, U8 $(, $a)*);
        $m!(U19, U9 $(, $a)*); $m!(U19, U10 $(, $a)*); $m!(U19, U11 $(, $a)*); $m!(U19, U12 $(, $a)*); $m!(U19, U13 $(, $a)*); $m!(U19, U14 $(, $a)*);
        $m!(U19, U15 $(, $a)*); $m!(U19, U16 $(, $a)*); $m!(U19, U17 $(, $a)*); $m!(U19, U18 $(, $a)*); $m!(U19, U19 $(, $a)*); $m!(U19, U20 $(, $a)*);
        $m!(U19, U21 $(, $a)*); $m!(U19, U22 $(, $a)*); $m!(U19, U23 $(, $a)*); $m!(U19, U24 $(, $a)*); $m!(U19, U25 $(, $a)*); $m!(U19, U26 $(, $a)*);
        $m!(U19, U27 $(, $a)*); $m!(U19, U28 $(, $a)*); $m!(U19, U29 $(, $a)*); $m!(U19, U30 $(, $a)*); $m!(U19, U31 $(, $a)*); $m!(U19, U32 $(, $a)*);
        $m!(U20, U0 $(, $a)*); $m!(U20, U1 $(, $a)*); $m!(U20, U2 $(, $a)*); $m!(U20, U3 $(, $a)*); $m!(U20, U4 $(, $a)*); $m!(U20, U5 $(, $a)*);
        $m!(U20, U6 $(, $a)*); $m!(U20, U7 $(, $a)*); $m!(U20, U8 $(, $a)*); $m!(U20, U9 $(, $a)*); $m!(U20, U10 $(, $a)*); $m!(U20, U11 $(, $a)*);
        $m!(U20, U12 $(, $a)*); $m!(U20, U13 $(, $a)*); $m!(U20, U14 $(, $a)*); $m!(U20, U15 $(, $a)*); $m!(U20, U16 $(, $a)*); $m!(U20, U17 $(, $a)*);
        $m!(U20, U18 $(, $a)*); $m!(U20, U19 $(, $a)*); $m!(U20, U20 $(, $a)*); $m!(U20, U21 $(, $a)*); $m!(U20, U22 $(, $a)*); $m!(U20, U23 $(, $a)*);
        $m!(U20, U24 $(, $a)*); $m!(U20, U25 $(, $a)*); $m!(U20, U26 $(, $a)*); $m!(U20, U27 $(, $a)*); $m!(U20, U28 $(, $a)*); $m!(U20, U29 $(, $a)*);
        $m!(U20, U30 $(, $a)*); $m!(U20, U31 $(, $a)*); $m!(U20, U32 $(, $a)*); $m!(U21, U0 $(, $a)*); $m!(U21, U1 $(, $a)*); $m!(U21, U2 $(, $a)*);
        $m!(U21, U3 $(, $a)*); $m!(U21, U4 $(, $a)*); $m!(U21, U5 $(, $a)*); $m!(U21, U6 $(, $a)*); $m!(U21, U7 $(, $a)*); $m!(U21, U8 $(, $a)*);
        $m!(U21, U9 $(, $a)*); $m!(U21, U10 $(, $a)*); $m!(U21, U11 $(, $a)*); $m!(U21, U12 $(, $a)*); $m!(U21, U13 $(, $a)*); $m!(U21, U14 $(, $a)*);
        $m!(U21, U15 $(, $a)*); $m!(U21, U16 $(, $a)*); $m!(U21, U17 $(, $a)*); $m!(U21, U18 $(, $a)*); $m!(U21, U19 $(, $a)*); $m!(U21, U20 $(, $a)*);
        $m!(U21, U21 $(, $a)*); $m!(U21, U22 $(, $a)*); $m!(U21, U23 $(, $a)*); $m!(U21, U24 $(, $a)*); $m!(U21, U25 $(, $a)*); $m!(U21, U26 $(, $a)*);
        $m!(U21, U27 $(, $a)*); $m!(U21, U28 $(, $a)*); $m!(U21, U29 $(, $a)*); $m!(U21, U30 $(, $a)*); $m!(U21, U31 $(, $a)*); $m!(U21, U32 $(, $a)*);
        $m!(U22, U0 $(, $a)*); $m!(U22, U1 $(, $a)*); $m!(U22, U2 $(, $a)*); $m!(U22, U3 $(, $a)*); $m!(U22, U4 $(, $a)*); $m!(U22, U5 $(, $a)*);
        $m!(U22, U6 $(, $a)*); $m!(U22, U7 $(, $a)*); $m!(U22, U8 $(, $a)*); $m!(U22, U9 $(, $a)*); $m!(U22, U10 $(, $a)*); $m!(U22, U11 $(, $a)*);
        $m!(U22, U12 $(, $a)*); $m!(U22, U13 $(, $a)*); $m!(U22, U14 $(, $a)*); $m!(U22, U15 $(, $a)*); $m!(U22, U16 $(, $a)*); $m!(U22, U17 $(, $a)*);
        $m!(U22, U18 $(, $a)*); $m!(U22, U19 $(, $a)*); $m!(U22, U20 $(, $a)*); $m!(U22, U21 $(, $a)*); $m!(U22, U22 $(, $a)*); $m!(U22, U23 $(, $a)*);
        $m!(U22, U24 $(, $a)*); $m!(U22, U25 $(, $a)*); $m!(U22, U26 $(, $a)*); $m!(U22, U27 $(, $a)*); $m!(U22, U28 $(, $a)*); $m!(U22, U29 $(, $a)*);
        $m!(U22, U30 $(, $a)*); $m!(U22, U31 $(, $a)*); $m!(U22, U32 $(, $a)*); $m!(U23, U0 $(, $a)*); $m!(U23, U1 $(, $a)*); $m!(U23, U2 $(, $a)*);
        $m!(U23, U3 $(, $a)*); $m!(U23, U4 $(, $a)*); $m!(U23, U5 $(, $a)*); $m!(U23, U6 $(, $a)*); $m!(U23, U7 $(, $a)*); $m!(U23, U8 $(, $a)*);
        $m!(U23, U9 $(, $a)*); $m!(U23, U10 $(, $a)*); $m!(U23, U11 $(, $a)*); $m!(U23, U12 $(, $a)*); $m!(U23, U13 $(, $a)*); $m!(U23, U14 $(, $a)*);
        $m!(U23, U15 $(, $a)*); $m!(U23, U16 $(, $a)*); $m!(U23, U17 $(, $a)*); $m!(U23, U18 $(, $a)*); $m!(U23, U19 $(, $a)*); $m!(U23, U20 $(, $a)*);
        $m!(U23, U21 $(, $a)*); $m!(U23, U22 $(, $a)*); $m!(U23, U23 $(, $a)*); $m!(U23, U24 $(, $a)*); $m!(U23, U25 $(, $a)*); $m!(U23, U26 $(, $a)*);
        $m!(U23, U27 $(, $a)*); $m!(U23, U28 $(, $a)*); $m!(U23, U29 $(, $a)*); $m!(U23, U30 $(, $a)*); $m!(U23, U31 $(, $a)*); $m!(U23, U32 $(, $a)*);
        $m!(U24, U0 $(, $a)*); $m!(U24, U1 $(, $a)*); $m!(U24, U2 $(, $a)*); $m!(U24, U3 $(, $a)*); $m!(U24, U4 $(, $a)*); $m!(U24, U5 $(, $a)*);
        $m!(U24, U6 $(, $a)*); $m!(U24, U7 $(, $a)*); $m!(U24, U8 $(, $a)*); $m!(U24, U9 $(, $a)*); $m!(U24, U10 $(, $a)*); $m!(U24, U11 $(, $a)*);
        $m!(U24, U12 $(, $a)*); $m!(U24, U13 $(, $a)*); $m!(U24, U14 $(, $a)*); $m!(U24, U15 $(, $a)*); $m!(U24, U16 $(, $a)*); $m!(U24, U17 $(, $a)*);
        $m!(U24, U18 $(, $a)*); $m!(U24, U19 $(, $a)*); $m!(U24, U20 $(, $a)*); $m!(U24, U21 $(, $a)*); $m!(U24, U22 $(, $a)*); $m!(U24, U23 $(, $a)*);
        $m!(U24, U24 $(, $a)*); $m!(U24, U25 $(, $a)*); $m!(U24, U26 $(, $a)*); $m!(U24, U27 $(, $a)*); $m!(U24, U28 $(, $a)*); $m!(U24, U29 $(, $a)*);
        $m!(U24, U30 $(, $a)*); $m!(U24, U31 $(, $a)*); $m!(U24, U32 $(, $a)*); $m!(U25, U0 $(, $a)*); $m!(U25, U1 $(, $a)*); $m!(U25, U2 $(, $a)*);
        $m!(U25, U3 $(, $a)*); $m!(U25, U4 $(, $a)*); $m!(U25, U5 $(, $a)*); $m!(U25, U6 $(, $a)*); $m!(U25, U7 $(, $a)*); $m!(U25, U8 $(, $a)*);
        $m!(U25, U9 $(, $a)*); $m!(U25, U10 $(, $a)*); $m!(U25, U11 $(, $a)*); $m!(U25, U12 $(, $a)*); $m!(U25, U13 $(, $a)*); $m!(U25, U14 $(, $a)*);
        $m!(U25, U15 $(, $a)*); $m!(U25, U16 $(, $a)*); $m!(U25, U17 $(, $a)*); $m!(U25, U18 $(, $a)*); $m!(U25, U19 $(, $a)*); $m!(U25, U20 $(, $a)*);
        $m!(U25, U21 $(, $a)*); $m!(U25, U22 $(, $a)*); $m!(U25, U23 $(, $a)*); $m!(U25, U24 $(, $a)*); $m!(U25, U25 $(, $a)*); $m!(U25, U26 $(, $a)*);
        $m!(U25, U27 $(, $a)*); $m!(U25, U28 $(, $a)*); $m!(U25, U29 $(, $a)*); $m!(U25, U30 $(, $a)*); $m!(U25, U31 $(, $a)*); $m!(U25, U32 $(, $a)*);
        $m!(U26, U0 $(, $a)*); $m!(U26, U1 $(, $a)*); $m!(U26, U2 $(, $a)*); $m!(U26, U3 $(, $a)*); $m!(U26, U4 $(, $a)*); $m!(U26, U5 $(, $a)*);
        $m!(U26, U6 $(, $a)*); $m!(U26, U7 $(, $a)*); $m!(U26, U8 $(, $a)*); $m!(U26, U9 $(, $a)*); $m!(U26, U10 $(, $a)*); $m!(U26, U11 $(, $a)*);
        $m!(U26, U12 $(, $a)*); $m!(U26, U13 $(, $a)*); $m!(U26, U14 $(, $a)*); $m!(U26, U15 $(, $a)*); $m!(U26, U16 $(, $a)*); $m!(U26, U17 $(, $a)*);
        $m!(U26, U18 $(, $a)*); $m!(U26, U19 $(, $a)*); $m!(U26, U20 $(, $a)*); $m!(U26, U21 $(, $a)*); $m!(U26, U22 $(, $a)*); $m!(U26, U23 $(, $a)*);
        $m!(U26, U24 $(, $a)*); $m!(U26, U25 $(, $a)*); $m!(U26, U26 $(, $a)*); $m!(U26, U27 $(, $a)*); $m!(U26, U28 $(, $a)*); $m!(U26, U29 $(, $a)*);
        $m!(U26, U30 $(, $a)*); $m!(U26, U31 $(, $a)*); $m!(U26, U32 $(, $a)*); $m!(U27, U0 $(, $a)*); $m!(U27, U1 $(, $a)*); $m!(U27, U2 $(, $a)*);
        $m!(U27, U3 $(, $a)*); $m!(U27, U4 $(, $a)*); $m!(U27, U5 $(, $a)*); $m!(U27, U6 $(, $a)*); $m!(U27, U7 $(, $a)*); $m!(U27, U8 $(, $a)*);
        $m!(U27, U9 $(, $a)*); $m!(U27, U10 $(, $a)*); $m!(U27, U11 $(, $a)*); $m!(U27, U12 $(, $a)*); $m!(U27, U13 $(, $a)*); $m!(U27, U14 $(, $a)*);
        $m!(U27, U15 $(, $a)*); $m!(U27, U16 $(, $a)*); $m!(U27, U17 $(, $a)*); $m!(U27, U18 $(, $a)*); $m!(U27, U19 $(, $a)*); $m!(U27, U20 $(, $a)*);
        $m!(U27, U21 $(, $a)*); $m!(U27, U22 $(, $a)*); $m!(U27, U23 $(, $a)*); $m!(U27, U24 $(, $a)*); $m!(U27, U25 $(, $a)*); $m!(U27, U26 $(, $a)*);
        $m!(U27, U27 $(, $a)*); $m!(U27, U28 $(, $a)*); $m!(U27, U29 $(, $a)*); $m!(U27, U30 $(, $a)*); $m!(U27, U31 $(, $a)*); $m!(U27, U32 $(, $a)*);
        $m!(U28, U0 $(, $a)*); $m!(U28, U1 $(, $a)*); $m!(U28, U2 $(, $a)*); $m!(U28, U3 $(, $a)*); $m!(U28, U4 $(, $a)*); $m!(U28, U5 $(, $a)*);
        $m!(U28, U6 $(, $a)*); $m!(U28, U7 $(, $a)*); $m!(U28, U8 $(, $a)*); $m!(U28, U9 $(, $a)*); $m!(U28, U10 $(, $a)*); $m!(U28, U11 $(, $a)*);
        $m!(U28, U12 $(, $a)*); $m!(U28, U13 $(, $a)*); $m!(U28, U14 $(, $a)*); $m!(U28, U15 $(, $a)*); $m!(U28, U16 $(, $a)*); $m!(U28, U17 $(, $a)*);
        $m!(U28, U18 $(, $a)*); $m!(U28, U19 $(, $a)*); $m!(U28, U20 $(, $a)*); $m!(U28, U21 $(, $a)*); $m!(U28, U22 $(, $a)*); $m!(U28, U23 $(, $a)*);
        $m!(U28, U24 $(, $a)*); $m!(U28, U25 $(, $a)*); $m!(U28, U26 $(, $a)*); $m!(U28, U27 $(, $a)*); $m!(U28, U28 $(, $a)*); $m!(U28, U29 $(, $a)*);
        $m!(U28, U30 $(, $a)*); $m!(U28, U31 $(, $a)*); $m!(U28, U32 $(, $a)*); $m!(U29, U0 $(, $a)*); $m!(U29, U1 $(, $a)*); $m!(U29, U2 $(, $a)*);
        $m!(U29, U3 $(, $a)*); $m!(U29, U4 $(, $a)*); $m!(U29, U5 $(, $a)*); $m!(U29, U6 $(, $a)*); $m!(U29, U7 $(, $a)*); $m!(U29, U8 $(, $a)*);
        $m!(U29, U9 $(, $a)*); $m!(U29, U10 $(, $a)*); $m!(U29, U11 $(, $a)*); $m!(U29, U12 $(, $a)*); $m!(U29, U13 $(, $a)*); $m!(U29, U14 $(, $a)*);
        $m!(U29, U15 $(, $a)*); $m!(U29, U16 $(, $a)*); $m!(U29, U17 $(, $a)*); $m!(U29, U18 $(, $a)*); $m!(U29, U19 $(, $a)*); $m!(U29, U20 $(, $a)*);
        $m!(U29, U21 $(, $a)*); $m!(U29, U22 $(, $a)*); $m!(U29, U23 $(, $a)*); $m!(U29, U24 $(, $a)*); $m!(U29, U25 $(, $a)*); $m!(U29, U26 $(, $a)*);
        $m!(U29, U27 $(, $a)*); $m!(U29, U28 $(, $a)*); $m!(U29, U29 $(, $a)*); $m!(U29, U30 $(, $a)*); $m!(U29, U31 $(, $a)*); $m!(U29, U32 $(, $a)*);
        $m!(U30, U0 $(, $a)*); $m!(U30, U1 $(, $a)*); $m!(U30, U2 $(, $a)*); $m!(U30, U3 $(, $a)*); $m!(U30, U4 $(, $a)*); $m!(U30, U5 $(, $a)*);
        $m!(U30, U6 $(, $a)*); $m!(U30, U7 $(, $a)*); $m!(U30, U8 $(, $a)*); $m!(U30, U9 $(, $a)*); $m!(U30, U10 $(, $a)*); $m!(U30, U11 $(, $a)*);
        $m!(U30, U12 $(, $a)*); $m!(U30, U13 $(, $a)*); $m!(U30, U14 $(, $a)*); $m!(U30, U15 $(, $a)*); $m!(U30, U16 $(, $a)*); $m!(U30, U17 $(, $a)*);
        $m!(U30, U18 $(, $a)*); $m!(U30, U19 $(, $a)*); $m!(U30, U20 $(, $a)*); $m!(U30, U21 $(, $a)*); $m!(U30, U22 $(, $a)*); $m!(U30, U23 $(, $a)*);
        $m!(U30, U24 $(, $a)*); $m!(U30, U25 $(, $a)*); $m!(U30, U26 $(, $a)*); $m!(U30, U27 $(, $a)*); $m!(U30, U28 $(, $a)*); $m!(U30, U29 $(, $a)*);
        $m!(U30, U30 $(, $a)*); $m!(U30, U31 $(, $a)*); $m!(U30, U32 $(, $a)*); $m!(U31, U0 $(, $a)*); $m!(U31, U1 $(, $a)*); $m!(U31, U2 $(, $a)*);
        $m!(U31, U3 $(, $a)*); $m!(U31, U4 $(, $a)*); $m!(U31, U5 $(, $a)*); $m!(U31, U6 $(, $a)*); $m!(U31, U7 $(, $a)*); $m!(U31, U8 $(, $a)*);
        $m!(U31, U9 $(, $a)*); $m!(U31, U10 $(, $a)*); $m!(U31, U11 $(, $a)*); $m!(U31, U12 $(, $a)*); $m!(U31, U13 $(, $a)*); $m!(U31, U14 $(, $a)*);
        $m!(U31, U15 $(, $a)*); $m!(U31, U16 $(, $a)*); $m!(U31, U17 $(, $a)*); $m!(U31, U18 $(, $a)*); $m!(U31, U19 $(, $a)*); $m!(U31, U20 $(, $a)*);
        $m!(U31, U21 $(, $a)*); $m!(U31, U22 $(, $a)*); $m!(U31, U23 $(, $a)*); $m!(U31, U24 $(, $a)*); $m!(U31, U25 $(, $a)*); $m!(U31, U26 $(, $a)*);
        $m!(U31, U27 $(, $a)*); $m!(U31, U28 $(, $a)*); $m!(U31, U29 $(, $a)*); $m!(U31, U30 $(, $a)*); $m!(U31, U31 $(, $a)*); $m!(U31, U32 $(, $a)*);
        $m!(U32, U0 $(, $a)*); $m!(U32, U1 $(, $a)*); $m!(U32, U2 $(, $a)*); $m!(U32, U3 $(, $a)*); $m!(U32, U4 $(, $a)*); $m!(U32, U5 $(, $a)*);
        $m!(U32, U6 $(, $a)*); $m!(U32, U7 $(, $a)*); $m!(U32, U8 $(, $a)*); $m!(U32, U9 $(, $a)*); $m!(U32, U10 $(, $a)*); $m!(U32, U11 $(, $a)*);
        $m!(U32, U12 $(, $a)*); $m!(U32, U13 $(, $a)*); $m!(U32, U14 $(, $a)*); $m!(U32, U15 $(, $a)*); $m!(U32, U16 $(, $a)*); $m!(U32, U17 $(, $a)*);
        $m!(U32, U18 $(, $a)*); $m!(U32, U19 $(, $a)*); $m!(U32, U20 $(, $a)*); $m!(U32, U21 $(, $a)*); $m!(U32, U22 $(, $a)*); $m!(U32, U23 $(, $a)*);
        $m!(U32, U24 $(, $a)*); $m!(U32, U25 $(, $a)*); $m!(U32, U26 $(, $a)*); $m!(U32, U27 $(, $a)*); $m!(U32, U28 $(, $a)*); $m!(U32, U29 $(, $a)*);
        $m!(U32, U30 $(, $a)*); $m!(U32, U31 $(, $a)*); $m!(U32, U32 $(, $a)*);
    };
}

/// Larger shapes: square, elongated and in between.
#[macro_export]
macro_rules! for_large_shapes {
    ($m:ident $(, $a:tt)*) => {
        $m!(U10, U10 $(, $a)*); $m!(U13, U13 $(, $a)*); $m!(U16, U16 $(, $a)*); $m!(U17, U17 $(, $a)*); $m!(U24, U24 $(, $a)*); $m!(U31, U31 $(, $a)*);
        $m!(U32, U32 $(, $a)*); $m!(U10, U0 $(, $a)*); $m!(U0, U10 $(, $a)*); $m!(U10, U1 $(, $a)*); $m!(U1, U10 $(, $a)*); $m!(U10, U2 $(, $a)*);
        $m!(U2, U10 $(, $a)*); $m!(U10, U3 $(, $a)*); $m!(U3, U10 $(, $a)*); $m!(U10, U5 $(, $a)*); $m!(U5, U10 $(, $a)*); $m!(U13, U0 $(, $a)*);
        $m!(U0, U13 $(, $a)*); $m!(U13, U1 $(, $a)*); $m!(U1, U13 $(, $a)*); $m!(U13, U2 $(, $a)*); $m!(U2, U13 $(, $a)*); $m!(U13, U3 $(, $a)*);
        $m!(U3, U13 $(, $a)*); $m!(U13, U5 $(, $a)*); $m!(U5, U13 $(, $a)*); $m!(U16, U0 $(, $a)*); $m!(U0, U16 $(, $a)*); $m!(U16, U1 $(, $a)*);
        $m!(U1, U16 $(, $a)*); $m!(U16, U2 $(, $a)*); $m!(U2, U16 $(, $a)*); $m!(U16, U3 $(, $a)*); $m!(U3, U16 $(, $a)*); $m!(U16, U5 $(, $a)*);
        $m!(U5, U16 $(, $a)*); $m!(U17, U0 $(, $a)*); $m!(U0, U17 $(, $a)*); $m!(U17, U1 $(, $a)*); $m!(U1, U17 $(, $a)*); $m!(U17, U2 $(, $a)*);
        $m!(U2, U17 $(, $a)*); $m!(U17, U3 $(, $a)*); $m!(U3, U17 $(, $a)*); $m!(U17, U5 $(, $a)*); $m!(U5, U17 $(, $a)*); $m!(U24, U0 $(, $a)*);
        $m!(U0, U24 $(, $a)*); $m!(U24, U1 $(, $a)*); $m!(U1, U24 $(, $a)*); $m!(U24, U2 $(, $a)*); $m!(U2, U24 $(, $a)*); $m!(U24, U3 $(, $a)*);
        $m!(U3, U24 $(, $a)*); $m!(U24, U5 $(, $a)*); $m!(U5, U24 $(, $a)*); $m!(U31, U0 $(, $a)*); $m!(U0, U31 $(, $a)*); $m!(U31, U1 $(, $a)*);
        $m!(U1, U31 $(, $a)*); $m!(U31, U2 $(, $a)*); $m!(U2, U31 $(, $a)*); $m!(U31, U3 $(, $a)*); $m!(U3, U31 $(, $a)*); $m!(U31, U5 $(, $a)*);
        $m!(U5, U31 $(, $a)*); $m!(U32, U0 $(, $a)*); $m!(U0, U32 $(, $a)*); $m!(U32, U1 $(, $a)*); $m!(U1, U32 $(, $a)*); $m!(U32, U2 $(, $a)*);
        $m!(U2, U32 $(, $a)*); $m!(U32, U3 $(, $a)*); $m!(U3, U32 $(, $a)*); $m!(U32, U5 $(, $a)*); $m!(U5, U32 $(, $a)*); $m!(U16, U8 $(, $a)*);
        $m!(U8, U16 $(, $a)*); $m!(U17, U16 $(, $a)*); $m!(U16, U17 $(, $a)*); $m!(U32, U31 $(, $a)*); $m!(U31, U32 $(, $a)*); $m!(U12, U20 $(, $a)*);
        $m!(U20, U12 $(, $a)*); $m!(U11, U11 $(, $a)*); $m!(U32, U16 $(, $a)*); $m!(U16, U32 $(, $a)*);
    };
}

/// Square sizes 1..=9, 16, 17.
#[macro_export]
macro_rules! for_squares {
    ($m:ident $(, $a:tt)*) => {
        $m!(U1, 1usize $(, $a)*); $m!(U2, 2usize $(, $a)*); $m!(U3, 3usize $(, $a)*); $m!(U4, 4usize $(, $a)*); $m!(U5, 5usize $(, $a)*); $m!(U6, 6usize $(, $a)*); $m!(U7, 7usize $(, $a)*); $m!(U8, 8usize $(, $a)*); $m!(U9, 9usize $(, $a)*); $m!(U16, 16usize $(, $a)*); $m!(U17, 17usize $(, $a)*);
    };
}

/// Square sizes 0..=32.
#[macro_export]
macro_rules! for_all_squares {
    ($m:ident $(, $a:tt)*) => {
        $m!(U0, 0usize $(, $a)*); $m!(U1, 1usize $(, $a)*); $m!(U2, 2usize $(, $a)*); $m!(U3, 3usize $(, $a)*); $m!(U4, 4usize $(, $a)*); $m!(U5, 5usize $(, $a)*); $m!(U6, 6usize $(, $a)*); $m!(U7, 7usize $(, $a)*); $m!(U8, 8usize $(, $a)*); $m!(U9, 9usize $(, $a)*); $m!(U10, 10usize $(, $a)*); $m!(U11, 11usize $(, $a)*); $m!(U12, 12usize $(, $a)*); $m!(U13, 13usize $(, $a)*); $m!(U14, 14usize $(, $a)*); $m!(U15, 15usize $(, $a)*); $m!(U16, 16usize $(, $a)*); $m!(U17, 17usize $(, $a)*); $m!(U18, 18usize $(, $a)*); $m!(U19, 19usize $(, $a)*); $m!(U20, 20usize $(, $a)*); $m!(U21, 21usize $(, $a)*); $m!(U22, 22usize $(, $a)*); $m!(U23, 23usize $(, $a)*); $m!(U24, 24usize $(, $a)*); $m!(U25, 25usize $(, $a)*); $m!(U26, 26usize $(, $a)*); $m!(U27, 27usize $(, $a)*); $m!(U28, 28usize $(, $a)*); $m!(U29, 29usize $(, $a)*); $m!(U30, 30usize $(, $a)*); $m!(U31, 31usize $(, $a)*); $m!(U32, 32usize $(, $a)*);
    };
}

/// Lengths 1..=32.
#[macro_export]
macro_rules! for_pos_lens {
    ($m:ident $(, $a:tt)*) => {
        $m!(U1, 1usize $(, $a)*); $m!(U2, 2usize $(, $a)*); $m!(U3, 3usize $(, $a)*); $m!(U4, 4usize $(, $a)*); $m!(U5, 5usize $(, $a)*); $m!(U6, 6usize $(, $a)*); $m!(U7, 7usize $(, $a)*); $m!(U8, 8usize $(, $a)*); $m!(U9, 9usize $(, $a)*); $m!(U10, 10usize $(, $a)*); $m!(U11, 11usize $(, $a)*); $m!(U12, 12usize $(, $a)*); $m!(U13, 13usize $(, $a)*); $m!(U14, 14usize $(, $a)*); $m!(U15, 15usize $(, $a)*); $m!(U16, 16usize $(, $a)*); $m!(U17, 17usize $(, $a)*); $m!(U18, 18usize $(, $a)*); $m!(U19, 19usize $(, $a)*); $m!(U20, 20usize $(, $a)*); $m!(U21, 21usize $(, $a)*); $m!(U22, 22usize $(, $a)*); $m!(U23, 23usize $(, $a)*); $m!(U24, 24usize $(, $a)*); $m!(U25, 25usize $(, $a)*); $m!(U26, 26usize $(, $a)*); $m!(U27, 27usize $(, $a)*); $m!(U28, 28usize $(, $a)*); $m!(U29, 29usize $(, $a)*); $m!(U30, 30usize $(, $a)*); $m!(U31, 31usize $(, $a)*); $m!(U32, 32usize $(, $a)*);
    };
}
/// One entry of a table of monomorphic drivers: `v.push(("3x4", f::<U3, U4>))`.
#[macro_export]
macro_rules! push_shape {
    ($R:ident, $C:ident, $v:ident, $f:ident) => {
        $v.push((concat!(stringify!($R), "x", stringify!($C)), $f::<$R, $C> as fn(&mut $crate::Ctx)));
    };
}
#[macro_export]
macro_rules! push_len {
    ($N:ident, $n:expr, $v:ident, $f:ident) => {
        $v.push((stringify!($N), $f::<$N> as fn(&mut $crate::Ctx)));
    };
}
/// Drivers whose first type parameter is the element type.
#[macro_export]
macro_rules! push_len_of {
    ($N:ident, $n:expr, $v:ident, $f:ident, $T:ty) => {
        $v.push((concat!(stringify!($T), "^", stringify!($N)), $f::<$T, $N> as fn(&mut $crate::Ctx)));
    };
}
#[macro_export]
macro_rules! push_shape_of {
    ($R:ident, $C:ident, $v:ident, $f:ident, $T:ty) => {
        $v.push((concat!(stringify!($T), "^", stringify!($R), "x", stringify!($C)), $f::<$T, $R, $C> as fn(&mut $crate::Ctx)));
    };
}
pub type Table = Vec<(&'static str, fn(&mut crate::Ctx))>;

/// Explores a table of drivers: which one is the first decision.
pub fn explore_table(ck: &crate::Check, name: &str, table: &Table) {
    if table.is_empty() {
        return;
    }
    ck.bound(&format!("{}: instances", name), table.len());
    ck.explore(name, |ctx| {
        let (n, f) = table[ctx.choose(table.len())];
        crate::log!(ctx, "instance {}", n);
        f(ctx)
    });
}
