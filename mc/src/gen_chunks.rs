// generated by tools/gen_shapes.py
macro_rules! for_small_chunks {
    ($m:ident $(, $a:tt)*) => {
        $m!(U0, U1 $(, $a)*); $m!(U0, U2 $(, $a)*); $m!(U0, U3 $(, $a)*); $m!(U0, U7 $(, $a)*); $m!(U0, U32 $(, $a)*); $m!(U1, U1 $(, $a)*);
        $m!(U2, U1 $(, $a)*); $m!(U2, U2 $(, $a)*); $m!(U3, U1 $(, $a)*); $m!(U3, U3 $(, $a)*); $m!(U4, U1 $(, $a)*); $m!(U4, U2 $(, $a)*);
        $m!(U4, U4 $(, $a)*); $m!(U5, U1 $(, $a)*); $m!(U5, U5 $(, $a)*); $m!(U6, U1 $(, $a)*); $m!(U6, U2 $(, $a)*); $m!(U6, U3 $(, $a)*);
        $m!(U6, U6 $(, $a)*); $m!(U7, U1 $(, $a)*); $m!(U7, U7 $(, $a)*); $m!(U8, U1 $(, $a)*); $m!(U8, U2 $(, $a)*); $m!(U8, U4 $(, $a)*);
        $m!(U8, U8 $(, $a)*);
    };
}

macro_rules! for_large_chunks {
    ($m:ident $(, $a:tt)*) => {
        $m!(U9, U1 $(, $a)*); $m!(U9, U3 $(, $a)*); $m!(U9, U9 $(, $a)*); $m!(U10, U1 $(, $a)*); $m!(U10, U2 $(, $a)*); $m!(U10, U5 $(, $a)*);
        $m!(U10, U10 $(, $a)*); $m!(U12, U1 $(, $a)*); $m!(U12, U2 $(, $a)*); $m!(U12, U3 $(, $a)*); $m!(U12, U4 $(, $a)*); $m!(U12, U6 $(, $a)*);
        $m!(U12, U12 $(, $a)*); $m!(U16, U1 $(, $a)*); $m!(U16, U2 $(, $a)*); $m!(U16, U4 $(, $a)*); $m!(U16, U8 $(, $a)*); $m!(U16, U16 $(, $a)*);
        $m!(U25, U1 $(, $a)*); $m!(U25, U5 $(, $a)*); $m!(U25, U25 $(, $a)*); $m!(U30, U1 $(, $a)*); $m!(U30, U2 $(, $a)*); $m!(U30, U3 $(, $a)*);
        $m!(U30, U5 $(, $a)*); $m!(U30, U6 $(, $a)*); $m!(U30, U10 $(, $a)*); $m!(U30, U15 $(, $a)*); $m!(U30, U30 $(, $a)*); $m!(U31, U1 $(, $a)*);
        $m!(U31, U31 $(, $a)*); $m!(U32, U1 $(, $a)*); $m!(U32, U2 $(, $a)*); $m!(U32, U4 $(, $a)*); $m!(U32, U8 $(, $a)*); $m!(U32, U16 $(, $a)*);
        $m!(U32, U32 $(, $a)*);
    };
}

macro_rules! for_other_chunks {
    ($m:ident $(, $a:tt)*) => {
        $m!(U11, U1 $(, $a)*); $m!(U11, U11 $(, $a)*); $m!(U13, U1 $(, $a)*); $m!(U13, U13 $(, $a)*); $m!(U14, U1 $(, $a)*); $m!(U14, U2 $(, $a)*);
        $m!(U14, U7 $(, $a)*); $m!(U14, U14 $(, $a)*); $m!(U15, U1 $(, $a)*); $m!(U15, U3 $(, $a)*); $m!(U15, U5 $(, $a)*); $m!(U15, U15 $(, $a)*);
        $m!(U17, U1 $(, $a)*); $m!(U17, U17 $(, $a)*); $m!(U18, U1 $(, $a)*); $m!(U18, U2 $(, $a)*); $m!(U18, U3 $(, $a)*); $m!(U18, U6 $(, $a)*);
        $m!(U18, U9 $(, $a)*); $m!(U18, U18 $(, $a)*); $m!(U19, U1 $(, $a)*); $m!(U19, U19 $(, $a)*); $m!(U20, U1 $(, $a)*); $m!(U20, U2 $(, $a)*);
        $m!(U20, U4 $(, $a)*); $m!(U20, U5 $(, $a)*); $m!(U20, U10 $(, $a)*); $m!(U20, U20 $(, $a)*); $m!(U21, U1 $(, $a)*); $m!(U21, U3 $(, $a)*);
        $m!(U21, U7 $(, $a)*); $m!(U21, U21 $(, $a)*); $m!(U22, U1 $(, $a)*); $m!(U22, U2 $(, $a)*); $m!(U22, U11 $(, $a)*); $m!(U22, U22 $(, $a)*);
        $m!(U23, U1 $(, $a)*); $m!(U23, U23 $(, $a)*); $m!(U24, U1 $(, $a)*); $m!(U24, U2 $(, $a)*); $m!(U24, U3 $(, $a)*); $m!(U24, U4 $(, $a)*);
        $m!(U24, U6 $(, $a)*); $m!(U24, U8 $(, $a)*); $m!(U24, U12 $(, $a)*); $m!(U24, U24 $(, $a)*); $m!(U26, U1 $(, $a)*); $m!(U26, U2 $(, $a)*);
        $m!(U26, U13 $(, $a)*); $m!(U26, U26 $(, $a)*); $m!(U27, U1 $(, $a)*); $m!(U27, U3 $(, $a)*); $m!(U27, U9 $(, $a)*); $m!(U27, U27 $(, $a)*);
        $m!(U28, U1 $(, $a)*); $m!(U28, U2 $(, $a)*); $m!(U28, U4 $(, $a)*); $m!(U28, U7 $(, $a)*); $m!(U28, U14 $(, $a)*); $m!(U28, U28 $(, $a)*);
        $m!(U29, U1 $(, $a)*); $m!(U29, U29 $(, $a)*);
    };
}

macro_rules! for_reshapes {
    ($m:ident $(, $a:tt)*) => {
        $m!(U0, U1 $(, $a)*); $m!(U0, U2 $(, $a)*); $m!(U0, U3 $(, $a)*); $m!(U0, U4 $(, $a)*); $m!(U0, U5 $(, $a)*); $m!(U0, U6 $(, $a)*);
        $m!(U0, U7 $(, $a)*); $m!(U0, U8 $(, $a)*); $m!(U0, U9 $(, $a)*); $m!(U0, U10 $(, $a)*); $m!(U0, U11 $(, $a)*); $m!(U0, U12 $(, $a)*);
        $m!(U0, U13 $(, $a)*); $m!(U0, U14 $(, $a)*); $m!(U0, U15 $(, $a)*); $m!(U0, U16 $(, $a)*); $m!(U0, U17 $(, $a)*); $m!(U0, U18 $(, $a)*);
        $m!(U0, U19 $(, $a)*); $m!(U0, U20 $(, $a)*); $m!(U0, U21 $(, $a)*); $m!(U0, U22 $(, $a)*); $m!(U0, U23 $(, $a)*); $m!(U0, U24 $(, $a)*);
        $m!(U0, U25 $(, $a)*); $m!(U0, U26 $(, $a)*); $m!(U0, U27 $(, $a)*); $m!(U0, U28 $(, $a)*); $m!(U0, U29 $(, $a)*); $m!(U0, U30 $(, $a)*);
        $m!(U0, U31 $(, $a)*); $m!(U0, U32 $(, $a)*); $m!(U1, U1 $(, $a)*); $m!(U1, U2 $(, $a)*); $m!(U1, U3 $(, $a)*); $m!(U1, U4 $(, $a)*);
        $m!(U1, U5 $(, $a)*); $m!(U1, U6 $(, $a)*); $m!(U1, U7 $(, $a)*); $m!(U1, U8 $(, $a)*); $m!(U1, U9 $(, $a)*); $m!(U1, U10 $(, $a)*);
        $m!(U1, U11 $(, $a)*); $m!(U1, U12 $(, $a)*); $m!(U1, U13 $(, $a)*); $m!(U1, U14 $(, $a)*); $m!(U1, U15 $(, $a)*); $m!(U1, U16 $(, $a)*);
        $m!(U1, U17 $(, $a)*); $m!(U1, U18 $(, $a)*); $m!(U1, U19 $(, $a)*); $m!(U1, U20 $(, $a)*); $m!(U1, U21 $(, $a)*); $m!(U1, U22 $(, $a)*);
        $m!(U1, U23 $(, $a)*); $m!(U1, U24 $(, $a)*); $m!(U1, U25 $(, $a)*); $m!(U1, U26 $(, $a)*); $m!(U1, U27 $(, $a)*); $m!(U1, U28 $(, $a)*);
        $m!(U1, U29 $(, $a)*); $m!(U1, U30 $(, $a)*); $m!(U1, U31 $(, $a)*); $m!(U1, U32 $(, $a)*); $m!(U2, U1 $(, $a)*); $m!(U2, U2 $(, $a)*);
        $m!(U2, U3 $(, $a)*); $m!(U2, U4 $(, $a)*); $m!(U2, U5 $(, $a)*); $m!(U2, U6 $(, $a)*); $m!(U2, U7 $(, $a)*); $m!(U2, U8 $(, $a)*);
        $m!(U2, U9 $(, $a)*); $m!(U2, U10 $(, $a)*); $m!(U2, U11 $(, $a)*); $m!(U2, U12 $(, $a)*); $m!(U2, U13 $(, $a)*); $m!(U2, U14 $(, $a)*);
        $m!(U2, U15 $(, $a)*); $m!(U2, U16 $(, $a)*); $m!(U3, U1 $(, $a)*); $m!(U3, U2 $(, $a)*); $m!(U3, U3 $(, $a)*); $m!(U3, U4 $(, $a)*);
        $m!(U3, U5 $(, $a)*); $m!(U3, U6 $(, $a)*); $m!(U3, U7 $(, $a)*); $m!(U3, U8 $(, $a)*); $m!(U3, U9 $(, $a)*); $m!(U3, U10 $(, $a)*);
        $m!(U4, U1 $(, $a)*); $m!(U4, U2 $(, $a)*); $m!(U4, U3 $(, $a)*); $m!(U4, U4 $(, $a)*); $m!(U4, U5 $(, $a)*); $m!(U4, U6 $(, $a)*);
        $m!(U4, U7 $(, $a)*); $m!(U4, U8 $(, $a)*); $m!(U5, U1 $(, $a)*); $m!(U5, U2 $(, $a)*); $m!(U5, U3 $(, $a)*); $m!(U5, U4 $(, $a)*);
        $m!(U5, U5 $(, $a)*); $m!(U5, U6 $(, $a)*); $m!(U6, U1 $(, $a)*); $m!(U6, U2 $(, $a)*); $m!(U6, U3 $(, $a)*); $m!(U6, U4 $(, $a)*);
        $m!(U6, U5 $(, $a)*); $m!(U7, U1 $(, $a)*); $m!(U7, U2 $(, $a)*); $m!(U7, U3 $(, $a)*); $m!(U7, U4 $(, $a)*); $m!(U8, U1 $(, $a)*);
        $m!(U8, U2 $(, $a)*); $m!(U8, U3 $(, $a)*); $m!(U8, U4 $(, $a)*); $m!(U9, U1 $(, $a)*); $m!(U9, U2 $(, $a)*); $m!(U9, U3 $(, $a)*);
        $m!(U10, U1 $(, $a)*); $m!(U10, U2 $(, $a)*); $m!(U10, U3 $(, $a)*); $m!(U11, U1 $(, $a)*); $m!(U11, U2 $(, $a)*); $m!(U12, U1 $(, $a)*);
        $m!(U12, U2 $(, $a)*); $m!(U13, U1 $(, $a)*); $m!(U13, U2 $(, $a)*); $m!(U14, U1 $(, $a)*); $m!(U14, U2 $(, $a)*); $m!(U15, U1 $(, $a)*);
        $m!(U15, U2 $(, $a)*); $m!(U16, U1 $(, $a)*); $m!(U16, U2 $(, $a)*); $m!(U17, U1 $(, $a)*); $m!(U18, U1 $(, $a)*); $m!(U19, U1 $(, $a)*);
        $m!(U20, U1 $(, $a)*); $m!(U21, U1 $(, $a)*); $m!(U22, U1 $(, $a)*); $m!(U23, U1 $(, $a)*); $m!(U24, U1 $(, $a)*); $m!(U25, U1 $(, $a)*);
        $m!(U26, U1 $(, $a)*); $m!(U27, U1 $(, $a)*); $m!(U28, U1 $(, $a)*); $m!(U29, U1 $(, $a)*); $m!(U30, U1 $(, $a)*); $m!(U31, U1 $(, $a)*);
        $m!(U32, U1 $(, $a)*);
    };
}
