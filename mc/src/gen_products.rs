// generated by tools/gen_shapes.py

macro_rules! for_products {
    ($m:ident $(, $a:tt)*) => {
        $m!(U0, U0, U0 $(, $a)*); $m!(U0, U0, U1 $(, $a)*); $m!(U0, U0, U2 $(, $a)*); $m!(U0, U0, U3 $(, $a)*); $m!(U0, U1, U0 $(, $a)*);
        $m!(U0, U1, U1 $(, $a)*); $m!(U0, U1, U2 $(, $a)*); $m!(U0, U1, U3 $(, $a)*); $m!(U0, U2, U0 $(, $a)*); $m!(U0, U2, U1 $(, $a)*);
        $m!(U0, U2, U2 $(, $a)*); $m!(U0, U2, U3 $(, $a)*); $m!(U0, U3, U0 $(, $a)*); $m!(U0, U3, U1 $(, $a)*); $m!(U0, U3, U2 $(, $a)*);
        $m!(U0, U3, U3 $(, $a)*); $m!(U1, U0, U0 $(, $a)*); $m!(U1, U0, U1 $(, $a)*); $m!(U1, U0, U2 $(, $a)*); $m!(U1, U0, U3 $(, $a)*);
        $m!(U1, U1, U0 $(, $a)*); $m!(U1, U1, U1 $(, $a)*); $m!(U1, U1, U2 $(, $a)*); $m!(U1, U1, U3 $(, $a)*); $m!(U1, U2, U0 $(, $a)*);
        $m!(U1, U2, U1 $(, $a)*); $m!(U1, U2, U2 $(, $a)*); $m!(U1, U2, U3 $(, $a)*); $m!(U1, U3, U0 $(, $a)*); $m!(U1, U3, U1 $(, $a)*);
        $m!(U1, U3, U2 $(, $a)*); $m!(U1, U3, U3 $(, $a)*); $m!(U2, U0, U0 $(, $a)*); $m!(U2, U0, U1 $(, $a)*); $m!(U2, U0, U2 $(, $a)*);
        $m!(U2, U0, U3 $(, $a)*); $m!(U2, U1, U0 $(, $a)*); $m!(U2, U1, U1 $(, $a)*); $m!(U2, U1, U2 $(, $a)*); $m!(U2, U1, U3 $(, $a)*);
        $m!(U2, U2, U0 $(, $a)*); $m!(U2, U2, U1 $(, $a)*); $m!(U2, U2, U2 $(, $a)*); $m!(U2, U2, U3 $(, $a)*); $m!(U2, U3, U0 $(, $a)*);
        $m!(U2, U3, U1 $(, $a)*); $m!(U2, U3, U2 $(, $a)*); $m!(U2, U3, U3 $(, $a)*); $m!(U3, U0, U0 $(, $a)*); $m!(U3, U0, U1 $(, $a)*);
        $m!(U3, U0, U2 $(, $a)*); $m!(U3, U0, U3 $(, $a)*); $m!(U3, U1, U0 $(, $a)*); $m!(U3, U1, U1 $(, $a)*); $m!(U3, U1, U2 $(, $a)*);
        $m!(U3, U1, U3 $(, $a)*); $m!(U3, U2, U0 $(, $a)*); $m!(U3, U2, U1 $(, $a)*); $m!(U3, U2, U2 $(, $a)*); $m!(U3, U2, U3 $(, $a)*);
        $m!(U3, U3, U0 $(, $a)*); $m!(U3, U3, U1 $(, $a)*); $m!(U3, U3, U2 $(, $a)*); $m!(U3, U3, U3 $(, $a)*); $m!(U4, U4, U4 $(, $a)*);
        $m!(U5, U5, U5 $(, $a)*); $m!(U6, U6, U6 $(, $a)*); $m!(U7, U7, U7 $(, $a)*); $m!(U8, U8, U8 $(, $a)*); $m!(U9, U9, U9 $(, $a)*);
        $m!(U1, U32, U1 $(, $a)*); $m!(U32, U1, U2 $(, $a)*); $m!(U2, U17, U3 $(, $a)*); $m!(U3, U16, U2 $(, $a)*); $m!(U1, U4, U8 $(, $a)*);
        $m!(U8, U4, U1 $(, $a)*); $m!(U4, U1, U5 $(, $a)*); $m!(U5, U2, U4 $(, $a)*); $m!(U2, U31, U1 $(, $a)*); $m!(U17, U2, U2 $(, $a)*);
        $m!(U2, U2, U17 $(, $a)*); $m!(U32, U0, U2 $(, $a)*); $m!(U0, U5, U3 $(, $a)*); $m!(U2, U5, U0 $(, $a)*); $m!(U16, U3, U4 $(, $a)*);
        $m!(U10, U11, U2 $(, $a)*); $m!(U1, U4, U2 $(, $a)*); $m!(U4, U2, U1 $(, $a)*); $m!(U1, U2, U4 $(, $a)*); $m!(U1, U5, U2 $(, $a)*);
        $m!(U5, U2, U1 $(, $a)*); $m!(U1, U2, U5 $(, $a)*); $m!(U1, U6, U2 $(, $a)*); $m!(U6, U2, U1 $(, $a)*); $m!(U1, U2, U6 $(, $a)*);
        $m!(U1, U7, U2 $(, $a)*); $m!(U7, U2, U1 $(, $a)*); $m!(U1, U2, U7 $(, $a)*); $m!(U1, U8, U2 $(, $a)*); $m!(U8, U2, U1 $(, $a)*);
        $m!(U1, U2, U8 $(, $a)*); $m!(U1, U9, U2 $(, $a)*); $m!(U9, U2, U1 $(, $a)*); $m!(U1, U2, U9 $(, $a)*); $m!(U1, U10, U2 $(, $a)*);
        $m!(U10, U2, U1 $(, $a)*); $m!(U1, U2, U10 $(, $a)*); $m!(U1, U11, U2 $(, $a)*); $m!(U11, U2, U1 $(, $a)*); $m!(U1, U2, U11 $(, $a)*);
        $m!(U1, U12, U2 $(, $a)*); $m!(U12, U2, U1 $(, $a)*); $m!(U1, U2, U12 $(, $a)*); $m!(U1, U13, U2 $(, $a)*); $m!(U13, U2, U1 $(, $a)*);
        $m!(U1, U2, U13 $(, $a)*); $m!(U1, U14, U2 $(, $a)*); $m!(U14, U2, U1 $(, $a)*); $m!(U1, U2, U14 $(, $a)*); $m!(U1, U15, U2 $(, $a)*);
        $m!(U15, U2, U1 $(, $a)*); $m!(U1, U2, U15 $(, $a)*); $m!(U1, U16, U2 $(, $a)*); $m!(U16, U2, U1 $(, $a)*); $m!(U1, U2, U16 $(, $a)*);
        $m!(U1, U17, U2 $(, $a)*); $m!(U17, U2, U1 $(, $a)*); $m!(U1, U2, U17 $(, $a)*); $m!(U1, U18, U2 $(, $a)*); $m!(U18, U2, U1 $(, $a)*);
        $m!(U1, U2, U18 $(, $a)*); $m!(U1, U19, U2 $(, $a)*); $m!(U19, U2, U1 $(, $a)*); $m!(U1, U2, U19 $(, $a)*); $m!(U1, U20, U2 $(, $a)*);
        $m!(U20, U2, U1 $(, $a)*); $m!(U1, U2, U20 $(, $a)*); $m!(U1, U21, U2 $(, $a)*); $m!(U21, U2, U1 $(, $a)*); $m!(U1, U2, U21 $(, $a)*);
        $m!(U1, U22, U2 $(, $a)*); $m!(U22, U2, U1 $(, $a)*); $m!(U1, U2, U22 $(, $a)*); $m!(U1, U23, U2 $(, $a)*); $m!(U23, U2, U1 $(, $a)*);
        $m!(U1, U2, U23 $(, $a)*); $m!(U1, U24, U2 $(, $a)*); $m!(U24, U2, U1 $(, $a)*); $m!(U1, U2, U24 $(, $a)*); $m!(U1, U25, U2 $(, $a)*);
        $m!(U25, U2, U1 $(, $a)*); $m!(U1, U2, U25 $(, $a)*); $m!(U1, U26, U2 $(, $a)*); $m!(U26, U2, U1 $(, $a)*); $m!(U1, U2, U26 $(, $a)*);
        $m!(U1, U27, U2 $(, $a)*); $m!(U27, U2, U1 $(, $a)*); $m!(U1, U2, U27 $(, $a)*); $m!(U1, U28, U2 $(, $a)*); $m!(U28, U2, U1 $(, $a)*);
        $m!(U1, U2, U28 $(, $a)*); $m!(U1, U29, U2 $(, $a)*); $m!(U29, U2, U1 $(, $a)*); $m!(U1, U2, U29 $(, $a)*); $m!(U1, U30, U2 $(, $a)*);
        $m!(U30, U2, U1 $(, $a)*); $m!(U1, U2, U30 $(, $a)*); $m!(U1, U31, U2 $(, $a)*); $m!(U31, U2, U1 $(, $a)*); $m!(U1, U2, U31 $(, $a)*);
        $m!(U1, U32, U2 $(, $a)*); $m!(U32, U2, U1 $(, $a)*); $m!(U1, U2, U32 $(, $a)*);
    };
}

macro_rules! for_more_products {
    ($m:ident $(, $a:tt)*) => {
        $m!(U0, U0, U4 $(, $a)*); $m!(U0, U0, U5 $(, $a)*); $m!(U0, U1, U4 $(, $a)*); $m!(U0, U1, U5 $(, $a)*); $m!(U0, U2, U4 $(, $a)*);
        $m!(U0, U2, U5 $(, $a)*); $m!(U0, U3, U4 $(, $a)*); $m!(U0, U3, U5 $(, $a)*); $m!(U0, U4, U0 $(, $a)*); $m!(U0, U4, U1 $(, $a)*);
        $m!(U0, U4, U2 $(, $a)*); $m!(U0, U4, U3 $(, $a)*); $m!(U0, U4, U4 $(, $a)*); $m!(U0, U4, U5 $(, $a)*); $m!(U0, U5, U0 $(, $a)*);
        $m!(U0, U5, U1 $(, $a)*); $m!(U0, U5, U2 $(, $a)*); $m!(U0, U5, U4 $(, $a)*); $m!(U0, U5, U5 $(, $a)*); $m!(U1, U0, U4 $(, $a)*);
        $m!(U1, U0, U5 $(, $a)*); $m!(U1, U1, U4 $(, $a)*); $m!(U1, U1, U5 $(, $a)*); $m!(U1, U3, U4 $(, $a)*); $m!(U1, U3, U5 $(, $a)*);
        $m!(U1, U4, U0 $(, $a)*); $m!(U1, U4, U1 $(, $a)*); $m!(U1, U4, U3 $(, $a)*); $m!(U1, U4, U4 $(, $a)*); $m!(U1, U4, U5 $(, $a)*);
        $m!(U1, U5, U0 $(, $a)*); $m!(U1, U5, U1 $(, $a)*); $m!(U1, U5, U3 $(, $a)*); $m!(U1, U5, U4 $(, $a)*); $m!(U1, U5, U5 $(, $a)*);
        $m!(U2, U0, U4 $(, $a)*); $m!(U2, U0, U5 $(, $a)*); $m!(U2, U1, U4 $(, $a)*); $m!(U2, U1, U5 $(, $a)*); $m!(U2, U2, U4 $(, $a)*);
        $m!(U2, U2, U5 $(, $a)*); $m!(U2, U3, U4 $(, $a)*); $m!(U2, U3, U5 $(, $a)*); $m!(U2, U4, U0 $(, $a)*); $m!(U2, U4, U1 $(, $a)*);
        $m!(U2, U4, U2 $(, $a)*); $m!(U2, U4, U3 $(, $a)*); $m!(U2, U4, U4 $(, $a)*); $m!(U2, U4, U5 $(, $a)*); $m!(U2, U5, U1 $(, $a)*);
        $m!(U2, U5, U2 $(, $a)*); $m!(U2, U5, U3 $(, $a)*); $m!(U2, U5, U4 $(, $a)*); $m!(U2, U5, U5 $(, $a)*); $m!(U3, U0, U4 $(, $a)*);
        $m!(U3, U0, U5 $(, $a)*); $m!(U3, U1, U4 $(, $a)*); $m!(U3, U1, U5 $(, $a)*); $m!(U3, U2, U4 $(, $a)*); $m!(U3, U2, U5 $(, $a)*);
        $m!(U3, U3, U4 $(, $a)*); $m!(U3, U3, U5 $(, $a)*); $m!(U3, U4, U0 $(, $a)*); $m!(U3, U4, U1 $(, $a)*); $m!(U3, U4, U2 $(, $a)*);
        $m!(U3, U4, U3 $(, $a)*); $m!(U3, U4, U4 $(, $a)*); $m!(U3, U4, U5 $(, $a)*); $m!(U3, U5, U0 $(, $a)*); $m!(U3, U5, U1 $(, $a)*);
        $m!(U3, U5, U2 $(, $a)*); $m!(U3, U5, U3 $(, $a)*); $m!(U3, U5, U4 $(, $a)*); $m!(U3, U5, U5 $(, $a)*); $m!(U4, U0, U0 $(, $a)*);
        $m!(U4, U0, U1 $(, $a)*); $m!(U4, U0, U2 $(, $a)*); $m!(U4, U0, U3 $(, $a)*); $m!(U4, U0, U4 $(, $a)*); $m!(U4, U0, U5 $(, $a)*);
        $m!(U4, U1, U0 $(, $a)*); $m!(U4, U1, U1 $(, $a)*); $m!(U4, U1, U2 $(, $a)*); $m!(U4, U1, U3 $(, $a)*); $m!(U4, U1, U4 $(, $a)*);
        $m!(U4, U2, U0 $(, $a)*); $m!(U4, U2, U2 $(, $a)*); $m!(U4, U2, U3 $(, $a)*); $m!(U4, U2, U4 $(, $a)*); $m!(U4, U2, U5 $(, $a)*);
        $m!(U4, U3, U0 $(, $a)*); $m!(U4, U3, U1 $(, $a)*); $m!(U4, U3, U2 $(, $a)*); $m!(U4, U3, U3 $(, $a)*); $m!(U4, U3, U4 $(, $a)*);
        $m!(U4, U3, U5 $(, $a)*); $m!(U4, U4, U0 $(, $a)*); $m!(U4, U4, U1 $(, $a)*); $m!(U4, U4, U2 $(, $a)*); $m!(U4, U4, U3 $(, $a)*);
        $m!(U4, U4, U5 $(, $a)*); $m!(U4, U5, U0 $(, $a)*); $m!(U4, U5, U1 $(, $a)*); $m!(U4, U5, U2 $(, $a)*); $m!(U4, U5, U3 $(, $a)*);
        $m!(U4, U5, U4 $(, $a)*); $m!(U4, U5, U5 $(, $a)*); $m!(U5, U0, U0 $(, $a)*); $m!(U5, U0, U1 $(, $a)*); $m!(U5, U0, U2 $(, $a)*);
        $m!(U5, U0, U3 $(, $a)*); $m!(U5, U0, U4 $(, $a)*); $m!(U5, U0, U5 $(, $a)*); $m!(U5, U1, U0 $(, $a)*); $m!(U5, U1, U1 $(, $a)*);
        $m!(U5, U1, U2 $(, $a)*); $m!(U5, U1, U3 $(, $a)*); $m!(U5, U1, U4 $(, $a)*); $m!(U5, U1, U5 $(, $a)*); $m!(U5, U2, U0 $(, $a)*);
        $m!(U5, U2, U2 $(, $a)*); $m!(U5, U2, U3 $(, $a)*); $m!(U5, U2, U5 $(, $a)*); $m!(U5, U3, U0 $(, $a)*); $m!(U5, U3, U1 $(, $a)*);
        $m!(U5, U3, U2 $(, $a)*); $m!(U5, U3, U3 $(, $a)*); $m!(U5, U3, U4 $(, $a)*); $m!(U5, U3, U5 $(, $a)*); $m!(U5, U4, U0 $(, $a)*);
        $m!(U5, U4, U1 $(, $a)*); $m!(U5, U4, U2 $(, $a)*); $m!(U5, U4, U3 $(, $a)*); $m!(U5, U4, U4 $(, $a)*); $m!(U5, U4, U5 $(, $a)*);
        $m!(U5, U5, U0 $(, $a)*); $m!(U5, U5, U1 $(, $a)*); $m!(U5, U5, U2 $(, $a)*); $m!(U5, U5, U3 $(, $a)*); $m!(U5, U5, U4 $(, $a)*);
        $m!(U10, U10, U10 $(, $a)*); $m!(U12, U12, U12 $(, $a)*); $m!(U16, U16, U16 $(, $a)*); $m!(U17, U17, U17 $(, $a)*); $m!(U24, U24, U24 $(, $a)*);
        $m!(U31, U31, U31 $(, $a)*); $m!(U32, U32, U32 $(, $a)*); $m!(U2, U7, U1 $(, $a)*); $m!(U2, U7, U9 $(, $a)*); $m!(U2, U7, U31 $(, $a)*);
        $m!(U2, U15, U1 $(, $a)*); $m!(U2, U15, U9 $(, $a)*); $m!(U2, U15, U31 $(, $a)*); $m!(U2, U32, U1 $(, $a)*); $m!(U2, U32, U9 $(, $a)*);
        $m!(U2, U32, U31 $(, $a)*); $m!(U16, U7, U1 $(, $a)*); $m!(U16, U7, U9 $(, $a)*); $m!(U16, U7, U31 $(, $a)*); $m!(U16, U15, U1 $(, $a)*);
        $m!(U16, U15, U9 $(, $a)*); $m!(U16, U15, U31 $(, $a)*); $m!(U16, U32, U1 $(, $a)*); $m!(U16, U32, U9 $(, $a)*); $m!(U16, U32, U31 $(, $a)*);
        $m!(U32, U7, U1 $(, $a)*); $m!(U32, U7, U9 $(, $a)*); $m!(U32, U7, U31 $(, $a)*); $m!(U32, U15, U1 $(, $a)*); $m!(U32, U15, U9 $(, $a)*);
        $m!(U32, U15, U31 $(, $a)*); $m!(U32, U32, U1 $(, $a)*); $m!(U32, U32, U9 $(, $a)*); $m!(U32, U32, U31 $(, $a)*);
    };
}
