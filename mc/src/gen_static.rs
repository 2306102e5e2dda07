// generated by tools/gen_shapes.py

fn static_table(v: &mut Table) {
    sv!(v U0 0; U0 0, U1 1, U2 2, U3 3, U4 4, U5 5, U6 6, U7 7, U8 8, U9 9, U10 10, U11 11, U12 12, U13 13, U14 14, U15 15, U16 16, U17 17, U18 18, U19 19, U20 20, U21 21, U22 22, U23 23, U24 24, U25 25, U26 26, U27 27, U28 28, U29 29, U30 30, U31 31, U32 32, U33 33, U34 34, U35 35, U36 36, U63 63, U64 64, U255 255, U256 256);
    sv!(v U1 1; U0 0, U1 1, U2 2, U3 3, U4 4, U5 5, U6 6, U7 7, U8 8, U9 9, U10 10, U11 11, U12 12, U13 13, U14 14, U15 15, U16 16, U17 17, U18 18, U19 19, U20 20, U21 21, U22 22, U23 23, U24 24, U25 25, U26 26, U27 27, U28 28, U29 29, U30 30, U31 31, U32 32, U33 33, U34 34, U35 35, U36 36, U63 63, U64 64, U255 255, U256 256);
    sv!(v U2 2; U0 0, U1 1, U2 2, U3 3, U4 4, U5 5, U6 6, U7 7, U8 8, U9 9, U10 10, U11 11, U12 12, U13 13, U14 14, U15 15, U16 16, U17 17, U18 18, U19 19, U20 20, U21 21, U22 22, U23 23, U24 24, U25 25, U26 26, U27 27, U28 28, U29 29, U30 30, U31 31, U32 32, U33 33, U34 34, U35 35, U36 36, U63 63, U64 64, U255 255, U256 256);
    sv!(v U3 3; U0 0, U1 1, U2 2, U3 3, U4 4, U5 5, U6 6, U7 7, U8 8, U9 9, U10 10, U11 11, U12 12, U13 13, U14 14, U15 15, U16 16, U17 17, U18 18, U19 19, U20 20, U21 21, U22 22, U23 23, U24 24, U25 25, U26 26, U27 27, U28 28, U29 29, U30 30, U31 31, U32 32, U33 33, U34 34, U35 35, U36 36, U63 63, U64 64, U255 255, U256 256);
    sv!(v U4 4; U0 0, U1 1, U2 2, U3 3, U4 4, U5 5, U6 6, U7 7, U8 8, U9 9, U10 10, U11 11, U12 12, U13 13, U14 14, U15 15, U16 16, U17 17, U18 18, U19 19, U20 20, U21 21, U22 22, U23 23, U24 24, U25 25, U26 26, U27 27, U28 28, U29 29, U30 30, U31 31, U32 32, U33 33, U34 34, U35 35, U36 36, U63 63, U64 64, U255 255, U256 256);
    sv!(v U5 5; U0 0, U1 1, U2 2, U3 3, U4 4, U5 5, U6 6, U7 7, U8 8, U9 9, U10 10, U11 11, U12 12, U13 13, U14 14, U15 15, U16 16, U17 17, U18 18, U19 19, U20 20, U21 21, U22 22, U23 23, U24 24, U25 25, U26 26, U27 27, U28 28, U29 29, U30 30, U31 31, U32 32, U33 33, U34 34, U35 35, U36 36, U63 63, U64 64, U255 255, U256 256);
    sv!(v U6 6; U0 0, U1 1, U2 2, U3 3, U4 4, U5 5, U6 6, U7 7, U8 8, U9 9, U10 10, U11 11, U12 12, U13 13, U14 14, U15 15, U16 16, U17 17, U18 18, U19 19, U20 20, U21 21, U22 22, U23 23, U24 24, U25 25, U26 26, U27 27, U28 28, U29 29, U30 30, U31 31, U32 32, U33 33, U34 34, U35 35, U36 36, U63 63, U64 64, U255 255, U256 256);
    sv!(v U7 7; U0 0, U1 1, U2 2, U3 3, U4 4, U5 5, U6 6, U7 7, U8 8, U9 9, U10 10, U11 11, U12 12, U13 13, U14 14, U15 15, U16 16, U17 17, U18 18, U19 19, U20 20, U21 21, U22 22, U23 23, U24 24, U25 25, U26 26, U27 27, U28 28, U29 29, U30 30, U31 31, U32 32, U33 33, U34 34, U35 35, U36 36, U63 63, U64 64, U255 255, U256 256);
    sv!(v U8 8; U0 0, U1 1, U2 2, U3 3, U4 4, U5 5, U6 6, U7 7, U8 8, U9 9, U10 10, U11 11, U12 12, U13 13, U14 14, U15 15, U16 16, U17 17, U18 18, U19 19, U20 20, U21 21, U22 22, U23 23, U24 24, U25 25, U26 26, U27 27, U28 28, U29 29, U30 30, U31 31, U32 32, U33 33, U34 34, U35 35, U36 36, U63 63, U64 64, U255 255, U256 256);
    sv!(v U9 9; U0 0, U1 1, U2 2, U3 3, U4 4, U5 5, U6 6, U7 7, U8 8, U9 9, U10 10, U11 11, U12 12, U13 13, U14 14, U15 15, U16 16, U17 17, U18 18, U19 19, U20 20, U21 21, U22 22, U23 23, U24 24, U25 25, U26 26, U27 27, U28 28, U29 29, U30 30, U31 31, U32 32, U33 33, U34 34, U35 35, U36 36, U63 63, U64 64, U255 255, U256 256);
    sv!(v U10 10; U0 0, U1 1, U2 2, U3 3, U4 4, U5 5, U6 6, U7 7, U8 8, U9 9, U10 10, U11 11, U12 12, U13 13, U14 14, U15 15, U16 16, U17 17, U18 18, U19 19, U20 20, U21 21, U22 22, U23 23, U24 24, U25 25, U26 26, U27 27, U28 28, U29 29, U30 30, U31 31, U32 32, U33 33, U34 34, U35 35, U36 36, U63 63, U64 64, U255 255, U256 256);
    sv!(v U11 11; U0 0, U1 1, U2 2, U3 3, U4 4, U5 5, U6 6, U7 7, U8 8, U9 9, U10 10, U11 11, U12 12, U13 13, U14 14, U15 15, U16 16, U17 17, U18 18, U19 19, U20 20, U21 21, U22 22, U23 23, U24 24, U25 25, U26 26, U27 27, U28 28, U29 29, U30 30, U31 31, U32 32, U33 33, U34 34, U35 35, U36 36, U63 63, U64 64, U255 255, U256 256);
    sv!(v U12 12; U0 0, U1 1, U2 2, U3 3, U4 4, U5 5, U6 6, U7 7, U8 8, U9 9, U10 10, U11 11, U12 12, U13 13, U14 14, U15 15, U16 16, U17 17, U18 18, U19 19, U20 20, U21 21, U22 22, U23 23, U24 24, U25 25, U26 26, U27 27, U28 28, U29 29, U30 30, U31 31, U32 32, U33 33, U34 34, U35 35, U36 36, U63 63, U64 64, U255 255, U256 256);
    sv!(v U13 13; U0 0, U1 1, U2 2, U3 3, U4 4, U5 5, U6 6, U7 7, U8 8, U9 9, U10 10, U11 11, U12 12, U13 13, U14 14, U15 15, U16 16, U17 17, U18 18, U19 19, U20 20, U21 21, U22 22, U23 23, U24 24, U25 25, U26 26, U27 27, U28 28, U29 29, U30 30, U31 31, U32 32, U33 33, U34 34, U35 35, U36 36, U63 63, U64 64, U255 255, U256 256);
    sv!(v U14 14; U0 0, U1 1, U2 2, U3 3, U4 4, U5 5, U6 6, U7 7, U8 8, U9 9, U10 10, U11 11, U12 12, U13 13, U14 14, U15 15, U16 16, U17 17, U18 18, U19 19, U20 20, U21 21, U22 22, U23 23, U24 24, U25 25, U26 26, U27 27, U28 28, U29 29, U30 30, U31 31, U32 32, U33 33, U34 34, U35 35, U36 36, U63 63, U64 64, U255 255, U256 256);
    sv!(v U15 15; U0 0, U1 1, U2 2, U3 3, U4 4, U5 5, U6 6, U7 7, U8 8, U9 9, U10 10, U11 11, U12 12, U13 13, U14 14, U15 15, U16 16, U17 17, U18 18, U19 19, U20 20, U21 21, U22 22, U23 23, U24 24, U25 25, U26 26, U27 27, U28 28, U29 29, U30 30, U31 31, U32 32, U33 33, U34 34, U35 35, U36 36, U63 63, U64 64, U255 255, U256 256);
    sv!(v U16 16; U0 0, U1 1, U2 2, U3 3, U4 4, U5 5, U6 6, U7 7, U8 8, U9 9, U10 10, U11 11, U12 12, U13 13, U14 14, U15 15, U16 16, U17 17, U18 18, U19 19, U20 20, U21 21, U22 22, U23 23, U24 24, U25 25, U26 26, U27 27, U28 28, U29 29, U30 30, U31 31, U32 32, U33 33, U34 34, U35 35, U36 36, U63 63, U64 64, U255 255, U256 256);
    sv!(v U17 17; U0 0, U1 1, U2 2, U3 3, U4 4, U5 5, U6 6, U7 7, U8 8, U9 9, U10 10, U11 11, U12 12, U13 13, U14 14, U15 15, U16 16, U17 17, U18 18, U19 19, U20 20, U21 21, U22 22, U23 23, U24 24, U25 25, U26 26, U27 27, U28 28, U29 29, U30 30, U31 31, U32 32, U33 33, U34 34, U35 35, U36 36, U63 63, U64 64, U255 255, U256 256);
    sv!(v U18 18; U0 0, U1 1, U2 2, U3 3, U4 4, U5 5, U6 6, U7 7, U8 8, U9 9, U10 10, U11 11, U12 12, U13 13, U14 14, U15 15, U16 16, U17 17, U18 18, U19 19, U20 20, U21 21, U22 22, U23 23, U24 24, U25 25, U26 26, U27 27, U28 28, U29 29, U30 30, U31 31, U32 32, U33 33, U34 34, U35 35, U36 36, U63 63, U64 64, U255 255, U256 256);
    sv!(v U19 19; U0 0, U1 1, U2 2, U3 3, U4 4, U5 5, U6 6, U7 7, U8 8, U9 9, U10 10, U11 11, U12 12, U13 13, U14 14, U15 15, U16 16, U17 17, U18 18, U19 19, U20 20, U21 21, U22 22, U23 23, U24 24, U25 25, U26 26, U27 27, U28 28, U29 29, U30 30, U31 31, U32 32, U33 33, U34 34, U35 35, U36 36, U63 63, U64 64, U255 255, U256 256);
    sv!(v U20 20; U0 0, U1 1, U2 2, U3 3, U4 4, U5 5, U6 6, U7 7, U8 8, U9 9, U10 10, U11 11, U12 12, U13 13, U14 14, U15 15, U16 16, U17 17, U18 18, U19 19, U20 20, U21 21, U22 22, U23 23, U24 24, U25 25, U26 26, U27 27, U28 28, U29 29, U30 30, U31 31, U32 32, U33 33, U34 34, U35 35, U36 36, U63 63, U64 64, U255 255, U256 256);
    sv!(v U21 21; U0 0, U1 1, U2 2, U3 3, U4 4, U5 5, U6 6, U7 7, U8 8, U9 9, U10 10, U11 11, U12 12, U13 13, U14 14, U15 15, U16 16, U17 17, U18 18, U19 19, U20 20, U21 21, U22 22, U23 23, U24 24, U25 25, U26 26, U27 27, U28 28, U29 29, U30 30, U31 31, U32 32, U33 33, U34 34, U35 35, U36 36, U63 63, U64 64, U255 255, U256 256);
    sv!(v U22 22; U0 0, U1 1, U2 2, U3 3, U4 4, U5 5, U6 6, U7 7, U8 8, U9 9, U10 10, U11 11, U12 12, U13 13, U14 14, U15 15, U16 16, U17 17, U18 18, U19 19, U20 20, U21 21, U22 22, U23 23, U24 24, U25 25, U26 26, U27 27, U28 28, U29 29, U30 30, U31 31, U32 32, U33 33, U34 34, U35 35, U36 36, U63 63, U64 64, U255 255, U256 256);
    sv!(v U23 23; U0 0, U1 1, U2 2, U3 3, U4 4, U5 5, U6 6, U7 7, U8 8, U9 9, U10 10, U11 11, U12 12, U13 13, U14 14, U15 15, U16 16, U17 17, U18 18, U19 19, U20 20, U21 21, U22 22, U23 23, U24 24, U25 25, U26 26, U27 27, U28 28, U29 29, U30 30, U31 31, U32 32, U33 33, U34 34, U35 35, U36 36, U63 63, U64 64, U255 255, U256 256);
    sv!(v U24 24; U0 0, U1 1, U2 2, U3 3, U4 4, U5 5, U6 6, U7 7, U8 8, U9 9, U10 10, U11 11, U12 12, U13 13, U14 14, U15 15, U16 16, U17 17, U18 18, U19 19, U20 20, U21 21, U22 22, U23 23, U24 24, U25 25, U26 26, U27 27, U28 28, U29 29, U30 30, U31 31, U32 32, U33 33, U34 34, U35 35, U36 36, U63 63, U64 64, U255 255, U256 256);
    sv!(v U25 25; U0 0, U1 1, U2 2, U3 3, U4 4, U5 5, U6 6, U7 7, U8 8, U9 9, U10 10, U11 11, U12 12, U13 13, U14 14, U15 15, U16 16, U17 17, U18 18, U19 19, U20 20, U21 21, U22 22, U23 23, U24 24, U25 25, U26 26, U27 27, U28 28, U29 29, U30 30, U31 31, U32 32, U33 33, U34 34, U35 35, U36 36, U63 63, U64 64, U255 255, U256 256);
    sv!(v U26 26; U0 0, U1 1, U2 2, U3 3, U4 4, U5 5, U6 6, U7 7, U8 8, U9 9, U10 10, U11 11, U12 12, U13 13, U14 14, U15 15, U16 16, U17 17, U18 18, U19 19, U20 20, U21 21, U22 22, U23 23, U24 24, U25 25, U26 26, U27 27, U28 28, U29 29, U30 30, U31 31, U32 32, U33 33, U34 34, U35 35, U36 36, U63 63, U64 64, U255 255, U256 256);
    sv!(v U27 27; U0 0, U1 1, U2 2, U3 3, U4 4, U5 5, U6 6, U7 7, U8 8, U9 9, U10 10, U11 11, U12 12, U13 13, U14 14, U15 15, U16 16, U17 17, U18 18, U19 19, U20 20, U21 21, U22 22, U23 23, U24 24, U25 25, U26 26, U27 27, U28 28, U29 29, U30 30, U31 31, U32 32, U33 33, U34 34, U35 35, U36 36, U63 63, U64 64, U255 255, U256 256);
    sv!(v U28 28; U0 0, U1 1, U2 2, U3 3, U4 4, U5 5, U6 6, U7 7, U8 8, U9 9, U10 10, U11 11, U12 12, U13 13, U14 14, U15 15, U16 16, U17 17, U18 18, U19 19, U20 20, U21 21, U22 22, U23 23, U24 24, U25 25, U26 26, U27 27, U28 28, U29 29, U30 30, U31 31, U32 32, U33 33, U34 34, U35 35, U36 36, U63 63, U64 64, U255 255, U256 256);
    sv!(v U29 29; U0 0, U1 1, U2 2, U3 3, U4 4, U5 5, U6 6, U7 7, U8 8, U9 9, U10 10, U11 11, U12 12, U13 13, U14 14, U15 15, U16 16, U17 17, U18 18, U19 19, U20 20, U21 21, U22 22, U23 23, U24 24, U25 25, U26 26, U27 27, U28 28, U29 29, U30 30, U31 31, U32 32, U33 33, U34 34, U35 35, U36 36, U63 63, U64 64, U255 255, U256 256);
    sv!(v U30 30; U0 0, U1 1, U2 2, U3 3, U4 4, U5 5, U6 6, U7 7, U8 8, U9 9, U10 10, U11 11, U12 12, U13 13, U14 14, U15 15, U16 16, U17 17, U18 18, U19 19, U20 20, U21 21, U22 22, U23 23, U24 24, U25 25, U26 26, U27 27, U28 28, U29 29, U30 30, U31 31, U32 32, U33 33, U34 34, U35 35, U36 36, U63 63, U64 64, U255 255, U256 256);
    sv!(v U31 31; U0 0, U1 1, U2 2, U3 3, U4 4, U5 5, U6 6, U7 7, U8 8, U9 9, U10 10, U11 11, U12 12, U13 13, U14 14, U15 15, U16 16, U17 17, U18 18, U19 19, U20 20, U21 21, U22 22, U23 23, U24 24, U25 25, U26 26, U27 27, U28 28, U29 29, U30 30, U31 31, U32 32, U33 33, U34 34, U35 35, U36 36, U63 63, U64 64, U255 255, U256 256);
    sv!(v U32 32; U0 0, U1 1, U2 2, U3 3, U4 4, U5 5, U6 6, U7 7, U8 8, U9 9, U10 10, U11 11, U12 12, U13 13, U14 14, U15 15, U16 16, U17 17, U18 18, U19 19, U20 20, U21 21, U22 22, U23 23, U24 24, U25 25, U26 26, U27 27, U28 28, U29 29, U30 30, U31 31, U32 32, U33 33, U34 34, U35 35, U36 36, U63 63, U64 64, U255 255, U256 256);
    sm!(v U0 U0 0, 0; (U0, U0, 0, 0), (U0, U1, 0, 1), (U0, U2, 0, 2), (U0, U3, 0, 3), (U0, U4, 0, 4), (U0, U5, 0, 5), (U1, U0, 1, 0), (U1, U1, 1, 1), (U1, U2, 1, 2), (U1, U3, 1, 3), (U1, U4, 1, 4), (U1, U5, 1, 5), (U2, U0, 2, 0), (U2, U1, 2, 1), (U2, U2, 2, 2), (U2, U3, 2, 3), (U2, U4, 2, 4), (U2, U5, 2, 5), (U3, U0, 3, 0), (U3, U1, 3, 1), (U3, U2, 3, 2), (U3, U3, 3, 3), (U3, U4, 3, 4), (U3, U5, 3, 5), (U4, U0, 4, 0), (U4, U1, 4, 1), (U4, U2, 4, 2), (U4, U3, 4, 3), (U4, U4, 4, 4), (U4, U5, 4, 5), (U5, U0, 5, 0), (U5, U1, 5, 1), (U5, U2, 5, 2), (U5, U3, 5, 3), (U5, U4, 5, 4), (U5, U5, 5, 5));
    sm!(v U0 U1 0, 1; (U0, U0, 0, 0), (U0, U1, 0, 1), (U0, U2, 0, 2), (U0, U3, 0, 3), (U0, U4, 0, 4), (U0, U5, 0, 5), (U1, U0, 1, 0), (U1, U1, 1, 1), (U1, U2, 1, 2), (U1, U3, 1, 3), (U1, U4, 1, 4), (U1, U5, 1, 5), (U2, U0, 2, 0), (U2, U1, 2, 1), (U2, U2, 2, 2), (U2, U3, 2, 3), (U2, U4, 2, 4), (U2, U5, 2, 5), (U3, U0, 3, 0), (U3, U1, 3, 1), (U3, U2, 3, 2), (U3, U3, 3, 3), (U3, U4, 3, 4), (U3, U5, 3, 5), (U4, U0, 4, 0), (U4, U1, 4, 1), (U4, U2, 4, 2), (U4, U3, 4, 3), (U4, U4, 4, 4), (U4, U5, 4, 5), (U5, U0, 5, 0), (U5, U1, 5, 1), (U5, U2, 5, 2), (U5, U3, 5, 3), (U5, U4, 5, 4), (U5, U5, 5, 5));
    sm!(v U0 U2 0, 2; (U0, U0, 0, 0), (U0, U1, 0, 1), (U0, U2, 0, 2), (U0, U3, 0, 3), (U0, U4, 0, 4), (U0, U5, 0, 5), (U1, U0, 1, 0), (U1, U1, 1, 1), (U1, U2, 1, 2), (U1, U3, 1, 3), (U1, U4, 1, 4), (U1, U5, 1, 5), (U2, U0, 2, 0), (U2, U1, 2, 1), (U2, U2, 2, 2), (U2, U3, 2, 3), (U2, U4, 2, 4), (U2, U5, 2, 5), (U3, U0, 3, 0), (U3, U1, 3, 1), (U3, U2, 3, 2), (U3, U3, 3, 3), (U3, U4, 3, 4), (U3, U5, 3, 5), (U4, U0, 4, 0), (U4, U1, 4, 1), (U4, U2, 4, 2), (U4, U3, 4, 3), (U4, U4, 4, 4), (U4, U5, 4, 5), (U5, U0, 5, 0), (U5, U1, 5, 1), (U5, U2, 5, 2), (U5, U3, 5, 3), (U5, U4, 5, 4), (U5, U5, 5, 5));
    sm!(v U0 U3 0, 3; (U0, U0, 0, 0), (U0, U1, 0, 1), (U0, U2, 0, 2), (U0, U3, 0, 3), (U0, U4, 0, 4), (U0, U5, 0, 5), (U1, U0, 1, 0), (U1, U1, 1, 1), (U1, U2, 1, 2), (U1, U3, 1, 3), (U1, U4, 1, 4), (U1, U5, 1, 5), (U2, U0, 2, 0), (U2, U1, 2, 1), (U2, U2, 2, 2), (U2, U3, 2, 3), (U2, U4, 2, 4), (U2, U5, 2, 5), (U3, U0, 3, 0), (U3, U1, 3, 1), (U3, U2, 3, 2), (U3, U3, 3, 3), (U3, U4, 3, 4), (U3, U5, 3, 5), (U4, U0, 4, 0), (U4, U1, 4, 1), (U4, U2, 4, 2), (U4, U3, 4, 3), (U4, U4, 4, 4), (U4, U5, 4, 5), (U5, U0, 5, 0), (U5, U1, 5, 1), (U5, U2, 5, 2), (U5, U3, 5, 3), (U5, U4, 5, 4), (U5, U5, 5, 5));
    sm!(v U0 U4 0, 4; (U0, U0, 0, 0), (U0, U1, 0, 1), (U0, U2, 0, 2), (U0, U3, 0, 3), (U0, U4, 0, 4), (U0, U5, 0, 5), (U1, U0, 1, 0), (U1, U1, 1, 1), (U1, U2, 1, 2), (U1, U3, 1, 3), (U1, U4, 1, 4), (U1, U5, 1, 5), (U2, U0, 2, 0), (U2, U1, 2, 1), (U2, U2, 2, 2), (U2, U3, 2, 3), (U2, U4, 2, 4), (U2, U5, 2, 5), (U3, U0, 3, 0), (U3, U1, 3, 1), (U3, U2, 3, 2), (U3, U3, 3, 3), (U3, U4, 3, 4), (U3, U5, 3, 5), (U4, U0, 4, 0), (U4, U1, 4, 1), (U4, U2, 4, 2), (U4, U3, 4, 3), (U4, U4, 4, 4), (U4, U5, 4, 5), (U5, U0, 5, 0), (U5, U1, 5, 1), (U5, U2, 5, 2), (U5, U3, 5, 3), (U5, U4, 5, 4), (U5, U5, 5, 5));
    sm!(v U1 U0 1, 0; (U0, U0, 0, 0), (U0, U1, 0, 1), (U0, U2, 0, 2), (U0, U3, 0, 3), (U0, U4, 0, 4), (U0, U5, 0, 5), (U1, U0, 1, 0), (U1, U1, 1, 1), (U1, U2, 1, 2), (U1, U3, 1, 3), (U1, U4, 1, 4), (U1, U5, 1, 5), (U2, U0, 2, 0), (U2, U1, 2, 1), (U2, U2, 2, 2), (U2, U3, 2, 3), (U2, U4, 2, 4), (U2, U5, 2, 5), (U3, U0, 3, 0), (U3, U1, 3, 1), (U3, U2, 3, 2), (U3, U3, 3, 3), (U3, U4, 3, 4), (U3, U5, 3, 5), (U4, U0, 4, 0), (U4, U1, 4, 1), (U4, U2, 4, 2), (U4, U3, 4, 3), (U4, U4, 4, 4), (U4, U5, 4, 5), (U5, U0, 5, 0), (U5, U1, 5, 1), (U5, U2, 5, 2), (U5, U3, 5, 3), (U5, U4, 5, 4), (U5, U5, 5, 5));
    sm!(v U1 U1 1, 1; (U0, U0, 0, 0), (U0, U1, 0, 1), (U0, U2, 0, 2), (U0, U3, 0, 3), (U0, U4, 0, 4), (U0, U5, 0, 5), (U1, U0, 1, 0), (U1, U1, 1, 1), (U1, U2, 1, 2), (U1, U3, 1, 3), (U1, U4, 1, 4), (U1, U5, 1, 5), (U2, U0, 2, 0), (U2, U1, 2, 1), (U2, U2, 2, 2), (U2, U3, 2, 3), (U2, U4, 2, 4), (U2, U5, 2, 5), (U3, U0, 3, 0), (U3, U1, 3, 1), (U3, U2, 3, 2), (U3, U3, 3, 3), (U3, U4, 3, 4), (U3, U5, 3, 5), (U4, U0, 4, 0), (U4, U1, 4, 1), (U4, U2, 4, 2), (U4, U3, 4, 3), (U4, U4, 4, 4), (U4, U5, 4, 5), (U5, U0, 5, 0), (U5, U1, 5, 1), (U5, U2, 5, 2), (U5, U3, 5, 3), (U5, U4, 5, 4), (U5, U5, 5, 5));
    sm!(v U1 U2 1, 2; (U0, U0, 0, 0), (U0, U1, 0, 1), (U0, U2, 0, 2), (U0, U3, 0, 3), (U0, U4, 0, 4), (U0, U5, 0, 5), (U1, U0, 1, 0), (U1, U1, 1, 1), (U1, U2, 1, 2), (U1, U3, 1, 3), (U1, U4, 1, 4), (U1, U5, 1, 5), (U2, U0, 2, 0), (U2, U1, 2, 1), (U2, U2, 2, 2), (U2, U3, 2, 3), (U2, U4, 2, 4), (U2, U5, 2, 5), (U3, U0, 3, 0), (U3, U1, 3, 1), (U3, U2, 3, 2), (U3, U3, 3, 3), (U3, U4, 3, 4), (U3, U5, 3, 5), (U4, U0, 4, 0), (U4, U1, 4, 1), (U4, U2, 4, 2), (U4, U3, 4, 3), (U4, U4, 4, 4), (U4, U5, 4, 5), (U5, U0, 5, 0), (U5, U1, 5, 1), (U5, U2, 5, 2), (U5, U3, 5, 3), (U5, U4, 5, 4), (U5, U5, 5, 5));
    sm!(v U1 U3 1, 3; (U0, U0, 0, 0), (U0, U1, 0, 1), (U0, U2, 0, 2), (U0, U3, 0, 3), (U0, U4, 0, 4), (U0, U5, 0, 5), (U1, U0, 1, 0), (U1, U1, 1, 1), (U1, U2, 1, 2), (U1, U3, 1, 3), (U1, U4, 1, 4), (U1, U5, 1, 5), (U2, U0, 2, 0), (U2, U1, 2, 1), (U2, U2, 2, 2), (U2, U3, 2, 3), (U2, U4, 2, 4), (U2, U5, 2, 5), (U3, U0, 3, 0), (U3, U1, 3, 1), (U3, U2, 3, 2), (U3, U3, 3, 3), (U3, U4, 3, 4), (U3, U5, 3, 5), (U4, U0, 4, 0), (U4, U1, 4, 1), (U4, U2, 4, 2), (U4, U3, 4, 3), (U4, U4, 4, 4), (U4, U5, 4, 5), (U5, U0, 5, 0), (U5, U1, 5, 1), (U5, U2, 5, 2), (U5, U3, 5, 3), (U5, U4, 5, 4), (U5, U5, 5, 5));
    sm!(v U1 U4 1, 4; (U0, U0, 0, 0), (U0, U1, 0, 1), (U0, U2, 0, 2), (U0, U3, 0, 3), (U0, U4, 0, 4), (U0, U5, 0, 5), (U1, U0, 1, 0), (U1, U1, 1, 1), (U1, U2, 1, 2), (U1, U3, 1, 3), (U1, U4, 1, 4), (U1, U5, 1, 5), (U2, U0, 2, 0), (U2, U1, 2, 1), (U2, U2, 2, 2), (U2, U3, 2, 3), (U2, U4, 2, 4), (U2, U5, 2, 5), (U3, U0, 3, 0), (U3, U1, 3, 1), (U3, U2, 3, 2), (U3, U3, 3, 3), (U3, U4, 3, 4), (U3, U5, 3, 5), (U4, U0, 4, 0), (U4, U1, 4, 1), (U4, U2, 4, 2), (U4, U3, 4, 3), (U4, U4, 4, 4), (U4, U5, 4, 5), (U5, U0, 5, 0), (U5, U1, 5, 1), (U5, U2, 5, 2), (U5, U3, 5, 3), (U5, U4, 5, 4), (U5, U5, 5, 5));
    sm!(v U2 U0 2, 0; (U0, U0, 0, 0), (U0, U1, 0, 1), (U0, U2, 0, 2), (U0, U3, 0, 3), (U0, U4, 0, 4), (U0, U5, 0, 5), (U1, U0, 1, 0), (U1, U1, 1, 1), (U1, U2, 1, 2), (U1, U3, 1, 3), (U1, U4, 1, 4), (U1, U5, 1, 5), (U2, U0, 2, 0), (U2, U1, 2, 1), (U2, U2, 2, 2), (U2, U3, 2, 3), (U2, U4, 2, 4), (U2, U5, 2, 5), (U3, U0, 3, 0), (U3, U1, 3, 1), (U3, U2, 3, 2), (U3, U3, 3, 3), (U3, U4, 3, 4), (U3, U5, 3, 5), (U4, U0, 4, 0), (U4, U1, 4, 1), (U4, U2, 4, 2), (U4, U3, 4, 3), (U4, U4, 4, 4), (U4, U5, 4, 5), (U5, U0, 5, 0), (U5, U1, 5, 1), (U5, U2, 5, 2), (U5, U3, 5, 3), (U5, U4, 5, 4), (U5, U5, 5, 5));
    sm!(v U2 U1 2, 1; (U0, U0, 0, 0), (U0, U1, 0, 1), (U0, U2, 0, 2), (U0, U3, 0, 3), (U0, U4, 0, 4), (U0, U5, 0, 5), (U1, U0, 1, 0), (U1, U1, 1, 1), (U1, U2, 1, 2), (U1, U3, 1, 3), (U1, U4, 1, 4), (U1, U5, 1, 5), (U2, U0, 2, 0), (U2, U1, 2, 1), (U2, U2, 2, 2), (U2, U3, 2, 3), (U2, U4, 2, 4), (U2, U5, 2, 5), (U3, U0, 3, 0), (U3, U1, 3, 1), (U3, U2, 3, 2), (U3, U3, 3, 3), (U3, U4, 3, 4), (U3, U5, 3, 5), (U4, U0, 4, 0), (U4, U1, 4, 1), (U4, U2, 4, 2), (U4, U3, 4, 3), (U4, U4, 4, 4), (U4, U5, 4, 5), (U5, U0, 5, 0), (U5, U1, 5, 1), (U5, U2, 5, 2), (U5, U3, 5, 3), (U5, U4, 5, 4), (U5, U5, 5, 5));
    sm!(v U2 U2 2, 2; (U0, U0, 0, 0), (U0, U1, 0, 1), (U0, U2, 0, 2), (U0, U3, 0, 3), (U0, U4, 0, 4), (U0, U5, 0, 5), (U1, U0, 1, 0), (U1, U1, 1, 1), (U1, U2, 1, 2), (U1, U3, 1, 3), (U1, U4, 1, 4), (U1, U5, 1, 5), (U2, U0, 2, 0), (U2, U1, 2, 1), (U2, U2, 2, 2), (U2, U3, 2, 3), (U2, U4, 2, 4), (U2, U5, 2, 5), (U3, U0, 3, 0), (U3, U1, 3, 1), (U3, U2, 3, 2), (U3, U3, 3, 3), (U3, U4, 3, 4), (U3, U5, 3, 5), (U4, U0, 4, 0), (U4, U1, 4, 1), (U4, U2, 4, 2), (U4, U3, 4, 3), (U4, U4, 4, 4), (U4, U5, 4, 5), (U5, U0, 5, 0), (U5, U1, 5, 1), (U5, U2, 5, 2), (U5, U3, 5, 3), (U5, U4, 5, 4), (U5, U5, 5, 5));
    sm!(v U2 U3 2, 3; (U0, U0, 0, 0), (U0, U1, 0, 1), (U0, U2, 0, 2), (U0, U3, 0, 3), (U0, U4, 0, 4), (U0, U5, 0, 5), (U1, U0, 1, 0), (U1, U1, 1, 1), (U1, U2, 1, 2), (U1, U3, 1, 3), (U1, U4, 1, 4), (U1, U5, 1, 5), (U2, U0, 2, 0), (U2, U1, 2, 1), (U2, U2, 2, 2), (U2, U3, 2, 3), (U2, U4, 2, 4), (U2, U5, 2, 5), (U3, U0, 3, 0), (U3, U1, 3, 1), (U3, U2, 3, 2), (U3, U3, 3, 3), (U3, U4, 3, 4), (U3, U5, 3, 5), (U4, U0, 4, 0), (U4, U1, 4, 1), (U4, U2, 4, 2), (U4, U3, 4, 3), (U4, U4, 4, 4), (U4, U5, 4, 5), (U5, U0, 5, 0), (U5, U1, 5, 1), (U5, U2, 5, 2), (U5, U3, 5, 3), (U5, U4, 5, 4), (U5, U5, 5, 5));
    sm!(v U2 U4 2, 4; (U0, U0, 0, 0), (U0, U1, 0, 1), (U0, U2, 0, 2), (U0, U3, 0, 3), (U0, U4, 0, 4), (U0, U5, 0, 5), (U1, U0, 1, 0), (U1, U1, 1, 1), (U1, U2, 1, 2), (U1, U3, 1, 3), (U1, U4, 1, 4), (U1, U5, 1, 5), (U2, U0, 2, 0), (U2, U1, 2, 1), (U2, U2, 2, 2), (U2, U3, 2, 3), (U2, U4, 2, 4), (U2, U5, 2, 5), (U3, U0, 3, 0), (U3, U1, 3, 1), (U3, U2, 3, 2), (U3, U3, 3, 3), (U3, U4, 3, 4), (U3, U5, 3, 5), (U4, U0, 4, 0), (U4, U1, 4, 1), (U4, U2, 4, 2), (U4, U3, 4, 3), (U4, U4, 4, 4), (U4, U5, 4, 5), (U5, U0, 5, 0), (U5, U1, 5, 1), (U5, U2, 5, 2), (U5, U3, 5, 3), (U5, U4, 5, 4), (U5, U5, 5, 5));
    sm!(v U3 U0 3, 0; (U0, U0, 0, 0), (U0, U1, 0, 1), (U0, U2, 0, 2), (U0, U3, 0, 3), (U0, U4, 0, 4), (U0, U5, 0, 5), (U1, U0, 1, 0), (U1, U1, 1, 1), (U1, U2, 1, 2), (U1, U3, 1, 3), (U1, U4, 1, 4), (U1, U5, 1, 5), (U2, U0, 2, 0), (U2, U1, 2, 1), (U2, U2, 2, 2), (U2, U3, 2, 3), (U2, U4, 2, 4), (U2, U5, 2, 5), (U3, U0, 3, 0), (U3, U1, 3, 1), (U3, U2, 3, 2), (U3, U3, 3, 3), (U3, U4, 3, 4), (U3, U5, 3, 5), (U4, U0, 4, 0), (U4, U1, 4, 1), (U4, U2, 4, 2), (U4, U3, 4, 3), (U4, U4, 4, 4), (U4, U5, 4, 5), (U5, U0, 5, 0), (U5, U1, 5, 1), (U5, U2, 5, 2), (U5, U3, 5, 3), (U5, U4, 5, 4), (U5, U5, 5, 5));
    sm!(v U3 U1 3, 1; (U0, U0, 0, 0), (U0, U1, 0, 1), (U0, U2, 0, 2), (U0, U3, 0, 3), (U0, U4, 0, 4), (U0, U5, 0, 5), (U1, U0, 1, 0), (U1, U1, 1, 1), (U1, U2, 1, 2), (U1, U3, 1, 3), (U1, U4, 1, 4), (U1, U5, 1, 5), (U2, U0, 2, 0), (U2, U1, 2, 1), (U2, U2, 2, 2), (U2, U3, 2, 3), (U2, U4, 2, 4), (U2, U5, 2, 5), (U3, U0, 3, 0), (U3, U1, 3, 1), (U3, U2, 3, 2), (U3, U3, 3, 3), (U3, U4, 3, 4), (U3, U5, 3, 5), (U4, U0, 4, 0), (U4, U1, 4, 1), (U4, U2, 4, 2), (U4, U3, 4, 3), (U4, U4, 4, 4), (U4, U5, 4, 5), (U5, U0, 5, 0), (U5, U1, 5, 1), (U5, U2, 5, 2), (U5, U3, 5, 3), (U5, U4, 5, 4), (U5, U5, 5, 5));
    sm!(v U3 U2 3, 2; (U0, U0, 0, 0), (U0, U1, 0, 1), (U0, U2, 0, 2), (U0, U3, 0, 3), (U0, U4, 0, 4), (U0, U5, 0, 5), (U1, U0, 1, 0), (U1, U1, 1, 1), (U1, U2, 1, 2), (U1, U3, 1, 3), (U1, U4, 1, 4), (U1, U5, 1, 5), (U2, U0, 2, 0), (U2, U1, 2, 1), (U2, U2, 2, 2), (U2, U3, 2, 3), (U2, U4, 2, 4), (U2, U5, 2, 5), (U3, U0, 3, 0), (U3, U1, 3, 1), (U3, U2, 3, 2), (U3, U3, 3, 3), (U3, U4, 3, 4), (U3, U5, 3, 5), (U4, U0, 4, 0), (U4, U1, 4, 1), (U4, U2, 4, 2), (U4, U3, 4, 3), (U4, U4, 4, 4), (U4, U5, 4, 5), (U5, U0, 5, 0), (U5, U1, 5, 1), (U5, U2, 5, 2), (U5, U3, 5, 3), (U5, U4, 5, 4), (U5, U5, 5, 5));
    sm!(v U3 U3 3, 3; (U0, U0, 0, 0), (U0, U1, 0, 1), (U0, U2, 0, 2), (U0, U3, 0, 3), (U0, U4, 0, 4), (U0, U5, 0, 5), (U1, U0, 1, 0), (U1, U1, 1, 1), (U1, U2, 1, 2), (U1, U3, 1, 3), (U1, U4, 1, 4), (U1, U5, 1, 5), (U2, U0, 2, 0), (U2, U1, 2, 1), (U2, U2, 2, 2), (U2, U3, 2, 3), (U2, U4, 2, 4), (U2, U5, 2, 5), (U3, U0, 3, 0), (U3, U1, 3, 1), (U3, U2, 3, 2), (U3, U3, 3, 3), (U3, U4, 3, 4), (U3, U5, 3, 5), (U4, U0, 4, 0), (U4, U1, 4, 1), (U4, U2, 4, 2), (U4, U3, 4, 3), (U4, U4, 4, 4), (U4, U5, 4, 5), (U5, U0, 5, 0), (U5, U1, 5, 1), (U5, U2, 5, 2), (U5, U3, 5, 3), (U5, U4, 5, 4), (U5, U5, 5, 5));
    sm!(v U3 U4 3, 4; (U0, U0, 0, 0), (U0, U1, 0, 1), (U0, U2, 0, 2), (U0, U3, 0, 3), (U0, U4, 0, 4), (U0, U5, 0, 5), (U1, U0, 1, 0), (U1, U1, 1, 1), (U1, U2, 1, 2), (U1, U3, 1, 3), (U1, U4, 1, 4), (U1, U5, 1, 5), (U2, U0, 2, 0), (U2, U1, 2, 1), (U2, U2, 2, 2), (U2, U3, 2, 3), (U2, U4, 2, 4), (U2, U5, 2, 5), (U3, U0, 3, 0), (U3, U1, 3, 1), (U3, U2, 3, 2), (U3, U3, 3, 3), (U3, U4, 3, 4), (U3, U5, 3, 5), (U4, U0, 4, 0), (U4, U1, 4, 1), (U4, U2, 4, 2), (U4, U3, 4, 3), (U4, U4, 4, 4), (U4, U5, 4, 5), (U5, U0, 5, 0), (U5, U1, 5, 1), (U5, U2, 5, 2), (U5, U3, 5, 3), (U5, U4, 5, 4), (U5, U5, 5, 5));
    sm!(v U4 U0 4, 0; (U0, U0, 0, 0), (U0, U1, 0, 1), (U0, U2, 0, 2), (U0, U3, 0, 3), (U0, U4, 0, 4), (U0, U5, 0, 5), (U1, U0, 1, 0), (U1, U1, 1, 1), (U1, U2, 1, 2), (U1, U3, 1, 3), (U1, U4, 1, 4), (U1, U5, 1, 5), (U2, U0, 2, 0), (U2, U1, 2, 1), (U2, U2, 2, 2), (U2, U3, 2, 3), (U2, U4, 2, 4), (U2, U5, 2, 5), (U3, U0, 3, 0), (U3, U1, 3, 1), (U3, U2, 3, 2), (U3, U3, 3, 3), (U3, U4, 3, 4), (U3, U5, 3, 5), (U4, U0, 4, 0), (U4, U1, 4, 1), (U4, U2, 4, 2), (U4, U3, 4, 3), (U4, U4, 4, 4), (U4, U5, 4, 5), (U5, U0, 5, 0), (U5, U1, 5, 1), (U5, U2, 5, 2), (U5, U3, 5, 3), (U5, U4, 5, 4), (U5, U5, 5, 5));
    sm!(v U4 U1 4, 1; (U0, U0, 0, 0), (U0, U1, 0, 1), (U0, U2, 0, 2), (U0, U3, 0, 3), (U0, U4, 0, 4), (U0, U5, 0, 5), (U1, U0, 1, 0), (U1, U1, 1, 1), (U1, U2, 1, 2), (U1, U3, 1, 3), (U1, U4, 1, 4), (U1, U5, 1, 5), (U2, U0, 2, 0), (U2, U1, 2, 1), (U2, U2, 2, 2), (U2, U3, 2, 3), (U2, U4, 2, 4), (U2, U5, 2, 5), (U3, U0, 3, 0), (U3, U1, 3, 1), (U3, U2, 3, 2), (U3, U3, 3, 3), (U3, U4, 3, 4), (U3, U5, 3, 5), (U4, U0, 4, 0), (U4, U1, 4, 1), (U4, U2, 4, 2), (U4, U3, 4, 3), (U4, U4, 4, 4), (U4, U5, 4, 5), (U5, U0, 5, 0), (U5, U1, 5, 1), (U5, U2, 5, 2), (U5, U3, 5, 3), (U5, U4, 5, 4), (U5, U5, 5, 5));
    sm!(v U4 U2 4, 2; (U0, U0, 0, 0), (U0, U1, 0, 1), (U0, U2, 0, 2), (U0, U3, 0, 3), (U0, U4, 0, 4), (U0, U5, 0, 5), (U1, U0, 1, 0), (U1, U1, 1, 1), (U1, U2, 1, 2), (U1, U3, 1, 3), (U1, U4, 1, 4), (U1, U5, 1, 5), (U2, U0, 2, 0), (U2, U1, 2, 1), (U2, U2, 2, 2), (U2, U3, 2, 3), (U2, U4, 2, 4), (U2, U5, 2, 5), (U3, U0, 3, 0), (U3, U1, 3, 1), (U3, U2, 3, 2), (U3, U3, 3, 3), (U3, U4, 3, 4), (U3, U5, 3, 5), (U4, U0, 4, 0), (U4, U1, 4, 1), (U4, U2, 4, 2), (U4, U3, 4, 3), (U4, U4, 4, 4), (U4, U5, 4, 5), (U5, U0, 5, 0), (U5, U1, 5, 1), (U5, U2, 5, 2), (U5, U3, 5, 3), (U5, U4, 5, 4), (U5, U5, 5, 5));
    sm!(v U4 U3 4, 3; (U0, U0, 0, 0), (U0, U1, 0, 1), (U0, U2, 0, 2), (U0, U3, 0, 3), (U0, U4, 0, 4), (U0, U5, 0, 5), (U1, U0, 1, 0), (U1, U1, 1, 1), (U1, U2, 1, 2), (U1, U3, 1, 3), (U1, U4, 1, 4), (U1, U5, 1, 5), (U2, U0, 2, 0), (U2, U1, 2, 1), (U2, U2, 2, 2), (U2, U3, 2, 3), (U2, U4, 2, 4), (U2, U5, 2, 5), (U3, U0, 3, 0), (U3, U1, 3, 1), (U3, U2, 3, 2), (U3, U3, 3, 3), (U3, U4, 3, 4), (U3, U5, 3, 5), (U4, U0, 4, 0), (U4, U1, 4, 1), (U4, U2, 4, 2), (U4, U3, 4, 3), (U4, U4, 4, 4), (U4, U5, 4, 5), (U5, U0, 5, 0), (U5, U1, 5, 1), (U5, U2, 5, 2), (U5, U3, 5, 3), (U5, U4, 5, 4), (U5, U5, 5, 5));
    sm!(v U4 U4 4, 4; (U0, U0, 0, 0), (U0, U1, 0, 1), (U0, U2, 0, 2), (U0, U3, 0, 3), (U0, U4, 0, 4), (U0, U5, 0, 5), (U1, U0, 1, 0), (U1, U1, 1, 1), (U1, U2, 1, 2), (U1, U3, 1, 3), (U1, U4, 1, 4), (U1, U5, 1, 5), (U2, U0, 2, 0), (U2, U1, 2, 1), (U2, U2, 2, 2), (U2, U3, 2, 3), (U2, U4, 2, 4), (U2, U5, 2, 5), (U3, U0, 3, 0), (U3, U1, 3, 1), (U3, U2, 3, 2), (U3, U3, 3, 3), (U3, U4, 3, 4), (U3, U5, 3, 5), (U4, U0, 4, 0), (U4, U1, 4, 1), (U4, U2, 4, 2), (U4, U3, 4, 3), (U4, U4, 4, 4), (U4, U5, 4, 5), (U5, U0, 5, 0), (U5, U1, 5, 1), (U5, U2, 5, 2), (U5, U3, 5, 3), (U5, U4, 5, 4), (U5, U5, 5, 5));
    sm!(v U5 U5 5, 5; (U0, U0, 0, 0), (U0, U1, 0, 1), (U0, U3, 0, 3), (U0, U4, 0, 4), (U0, U5, 0, 5), (U0, U6, 0, 6), (U1, U0, 1, 0), (U1, U1, 1, 1), (U1, U3, 1, 3), (U1, U4, 1, 4), (U1, U5, 1, 5), (U1, U6, 1, 6), (U3, U0, 3, 0), (U3, U1, 3, 1), (U3, U3, 3, 3), (U3, U4, 3, 4), (U3, U5, 3, 5), (U3, U6, 3, 6), (U4, U0, 4, 0), (U4, U1, 4, 1), (U4, U3, 4, 3), (U4, U4, 4, 4), (U4, U5, 4, 5), (U4, U6, 4, 6), (U5, U0, 5, 0), (U5, U1, 5, 1), (U5, U3, 5, 3), (U5, U4, 5, 4), (U5, U5, 5, 5), (U5, U6, 5, 6), (U6, U0, 6, 0), (U6, U1, 6, 1), (U6, U3, 6, 3), (U6, U4, 6, 4), (U6, U5, 6, 5), (U6, U6, 6, 6));
    sm!(v U9 U9 9, 9; (U0, U0, 0, 0), (U0, U1, 0, 1), (U0, U7, 0, 7), (U0, U8, 0, 8), (U0, U9, 0, 9), (U0, U10, 0, 10), (U1, U0, 1, 0), (U1, U1, 1, 1), (U1, U7, 1, 7), (U1, U8, 1, 8), (U1, U9, 1, 9), (U1, U10, 1, 10), (U7, U0, 7, 0), (U7, U1, 7, 1), (U7, U7, 7, 7), (U7, U8, 7, 8), (U7, U9, 7, 9), (U7, U10, 7, 10), (U8, U0, 8, 0), (U8, U1, 8, 1), (U8, U7, 8, 7), (U8, U8, 8, 8), (U8, U9, 8, 9), (U8, U10, 8, 10), (U9, U0, 9, 0), (U9, U1, 9, 1), (U9, U7, 9, 7), (U9, U8, 9, 8), (U9, U9, 9, 9), (U9, U10, 9, 10), (U10, U0, 10, 0), (U10, U1, 10, 1), (U10, U7, 10, 7), (U10, U8, 10, 8), (U10, U9, 10, 9), (U10, U10, 10, 10));
    sm!(v U5 U8 5, 8; (U0, U0, 0, 0), (U0, U1, 0, 1), (U0, U4, 0, 4), (U0, U5, 0, 5), (U0, U6, 0, 6), (U0, U7, 0, 7), (U0, U8, 0, 8), (U0, U9, 0, 9), (U1, U0, 1, 0), (U1, U1, 1, 1), (U1, U4, 1, 4), (U1, U5, 1, 5), (U1, U6, 1, 6), (U1, U7, 1, 7), (U1, U8, 1, 8), (U1, U9, 1, 9), (U3, U0, 3, 0), (U3, U1, 3, 1), (U3, U4, 3, 4), (U3, U5, 3, 5), (U3, U6, 3, 6), (U3, U7, 3, 7), (U3, U8, 3, 8), (U3, U9, 3, 9), (U4, U0, 4, 0), (U4, U1, 4, 1), (U4, U4, 4, 4), (U4, U5, 4, 5), (U4, U6, 4, 6), (U4, U7, 4, 7), (U4, U8, 4, 8), (U4, U9, 4, 9), (U5, U0, 5, 0), (U5, U1, 5, 1), (U5, U4, 5, 4), (U5, U5, 5, 5), (U5, U6, 5, 6), (U5, U7, 5, 7), (U5, U8, 5, 8), (U5, U9, 5, 9), (U6, U0, 6, 0), (U6, U1, 6, 1), (U6, U4, 6, 4), (U6, U5, 6, 5), (U6, U6, 6, 6), (U6, U7, 6, 7), (U6, U8, 6, 8), (U6, U9, 6, 9), (U7, U0, 7, 0), (U7, U1, 7, 1), (U7, U4, 7, 4), (U7, U5, 7, 5), (U7, U6, 7, 6), (U7, U7, 7, 7), (U7, U8, 7, 8), (U7, U9, 7, 9), (U8, U0, 8, 0), (U8, U1, 8, 1), (U8, U4, 8, 4), (U8, U5, 8, 5), (U8, U6, 8, 6), (U8, U7, 8, 7), (U8, U8, 8, 8), (U8, U9, 8, 9));
    sm!(v U8 U5 8, 5; (U0, U0, 0, 0), (U0, U1, 0, 1), (U0, U3, 0, 3), (U0, U4, 0, 4), (U0, U5, 0, 5), (U0, U6, 0, 6), (U0, U7, 0, 7), (U0, U8, 0, 8), (U1, U0, 1, 0), (U1, U1, 1, 1), (U1, U3, 1, 3), (U1, U4, 1, 4), (U1, U5, 1, 5), (U1, U6, 1, 6), (U1, U7, 1, 7), (U1, U8, 1, 8), (U4, U0, 4, 0), (U4, U1, 4, 1), (U4, U3, 4, 3), (U4, U4, 4, 4), (U4, U5, 4, 5), (U4, U6, 4, 6), (U4, U7, 4, 7), (U4, U8, 4, 8), (U5, U0, 5, 0), (U5, U1, 5, 1), (U5, U3, 5, 3), (U5, U4, 5, 4), (U5, U5, 5, 5), (U5, U6, 5, 6), (U5, U7, 5, 7), (U5, U8, 5, 8), (U6, U0, 6, 0), (U6, U1, 6, 1), (U6, U3, 6, 3), (U6, U4, 6, 4), (U6, U5, 6, 5), (U6, U6, 6, 6), (U6, U7, 6, 7), (U6, U8, 6, 8), (U7, U0, 7, 0), (U7, U1, 7, 1), (U7, U3, 7, 3), (U7, U4, 7, 4), (U7, U5, 7, 5), (U7, U6, 7, 6), (U7, U7, 7, 7), (U7, U8, 7, 8), (U8, U0, 8, 0), (U8, U1, 8, 1), (U8, U3, 8, 3), (U8, U4, 8, 4), (U8, U5, 8, 5), (U8, U6, 8, 6), (U8, U7, 8, 7), (U8, U8, 8, 8), (U9, U0, 9, 0), (U9, U1, 9, 1), (U9, U3, 9, 3), (U9, U4, 9, 4), (U9, U5, 9, 5), (U9, U6, 9, 6), (U9, U7, 9, 7), (U9, U8, 9, 8));
    sm!(v U16 U2 16, 2; (U0, U0, 0, 0), (U0, U1, 0, 1), (U0, U2, 0, 2), (U0, U3, 0, 3), (U0, U15, 0, 15), (U0, U16, 0, 16), (U1, U0, 1, 0), (U1, U1, 1, 1), (U1, U2, 1, 2), (U1, U3, 1, 3), (U1, U15, 1, 15), (U1, U16, 1, 16), (U2, U0, 2, 0), (U2, U1, 2, 1), (U2, U2, 2, 2), (U2, U3, 2, 3), (U2, U15, 2, 15), (U2, U16, 2, 16), (U14, U0, 14, 0), (U14, U1, 14, 1), (U14, U2, 14, 2), (U14, U3, 14, 3), (U14, U15, 14, 15), (U14, U16, 14, 16), (U15, U0, 15, 0), (U15, U1, 15, 1), (U15, U2, 15, 2), (U15, U3, 15, 3), (U15, U15, 15, 15), (U15, U16, 15, 16), (U16, U0, 16, 0), (U16, U1, 16, 1), (U16, U2, 16, 2), (U16, U3, 16, 3), (U16, U15, 16, 15), (U16, U16, 16, 16), (U17, U0, 17, 0), (U17, U1, 17, 1), (U17, U2, 17, 2), (U17, U3, 17, 3), (U17, U15, 17, 15), (U17, U16, 17, 16));
    sm!(v U2 U16 2, 16; (U0, U0, 0, 0), (U0, U1, 0, 1), (U0, U2, 0, 2), (U0, U14, 0, 14), (U0, U15, 0, 15), (U0, U16, 0, 16), (U0, U17, 0, 17), (U1, U0, 1, 0), (U1, U1, 1, 1), (U1, U2, 1, 2), (U1, U14, 1, 14), (U1, U15, 1, 15), (U1, U16, 1, 16), (U1, U17, 1, 17), (U2, U0, 2, 0), (U2, U1, 2, 1), (U2, U2, 2, 2), (U2, U14, 2, 14), (U2, U15, 2, 15), (U2, U16, 2, 16), (U2, U17, 2, 17), (U3, U0, 3, 0), (U3, U1, 3, 1), (U3, U2, 3, 2), (U3, U14, 3, 14), (U3, U15, 3, 15), (U3, U16, 3, 16), (U3, U17, 3, 17), (U15, U0, 15, 0), (U15, U1, 15, 1), (U15, U2, 15, 2), (U15, U14, 15, 14), (U15, U15, 15, 15), (U15, U16, 15, 16), (U15, U17, 15, 17), (U16, U0, 16, 0), (U16, U1, 16, 1), (U16, U2, 16, 2), (U16, U14, 16, 14), (U16, U15, 16, 15), (U16, U16, 16, 16), (U16, U17, 16, 17));
    sm!(v U17 U3 17, 3; (U0, U0, 0, 0), (U0, U1, 0, 1), (U0, U2, 0, 2), (U0, U3, 0, 3), (U0, U4, 0, 4), (U0, U16, 0, 16), (U0, U17, 0, 17), (U1, U0, 1, 0), (U1, U1, 1, 1), (U1, U2, 1, 2), (U1, U3, 1, 3), (U1, U4, 1, 4), (U1, U16, 1, 16), (U1, U17, 1, 17), (U2, U0, 2, 0), (U2, U1, 2, 1), (U2, U2, 2, 2), (U2, U3, 2, 3), (U2, U4, 2, 4), (U2, U16, 2, 16), (U2, U17, 2, 17), (U3, U0, 3, 0), (U3, U1, 3, 1), (U3, U2, 3, 2), (U3, U3, 3, 3), (U3, U4, 3, 4), (U3, U16, 3, 16), (U3, U17, 3, 17), (U15, U0, 15, 0), (U15, U1, 15, 1), (U15, U2, 15, 2), (U15, U3, 15, 3), (U15, U4, 15, 4), (U15, U16, 15, 16), (U15, U17, 15, 17), (U16, U0, 16, 0), (U16, U1, 16, 1), (U16, U2, 16, 2), (U16, U3, 16, 3), (U16, U4, 16, 4), (U16, U16, 16, 16), (U16, U17, 16, 17), (U17, U0, 17, 0), (U17, U1, 17, 1), (U17, U2, 17, 2), (U17, U3, 17, 3), (U17, U4, 17, 4), (U17, U16, 17, 16), (U17, U17, 17, 17), (U18, U0, 18, 0), (U18, U1, 18, 1), (U18, U2, 18, 2), (U18, U3, 18, 3), (U18, U4, 18, 4), (U18, U16, 18, 16), (U18, U17, 18, 17));
    sm!(v U3 U17 3, 17; (U0, U0, 0, 0), (U0, U1, 0, 1), (U0, U2, 0, 2), (U0, U3, 0, 3), (U0, U15, 0, 15), (U0, U16, 0, 16), (U0, U17, 0, 17), (U0, U18, 0, 18), (U1, U0, 1, 0), (U1, U1, 1, 1), (U1, U2, 1, 2), (U1, U3, 1, 3), (U1, U15, 1, 15), (U1, U16, 1, 16), (U1, U17, 1, 17), (U1, U18, 1, 18), (U2, U0, 2, 0), (U2, U1, 2, 1), (U2, U2, 2, 2), (U2, U3, 2, 3), (U2, U15, 2, 15), (U2, U16, 2, 16), (U2, U17, 2, 17), (U2, U18, 2, 18), (U3, U0, 3, 0), (U3, U1, 3, 1), (U3, U2, 3, 2), (U3, U3, 3, 3), (U3, U15, 3, 15), (U3, U16, 3, 16), (U3, U17, 3, 17), (U3, U18, 3, 18), (U4, U0, 4, 0), (U4, U1, 4, 1), (U4, U2, 4, 2), (U4, U3, 4, 3), (U4, U15, 4, 15), (U4, U16, 4, 16), (U4, U17, 4, 17), (U4, U18, 4, 18), (U16, U0, 16, 0), (U16, U1, 16, 1), (U16, U2, 16, 2), (U16, U3, 16, 3), (U16, U15, 16, 15), (U16, U16, 16, 16), (U16, U17, 16, 17), (U16, U18, 16, 18), (U17, U0, 17, 0), (U17, U1, 17, 1), (U17, U2, 17, 2), (U17, U3, 17, 3), (U17, U15, 17, 15), (U17, U16, 17, 16), (U17, U17, 17, 17), (U17, U18, 17, 18));
    sm!(v U32 U1 32, 1; (U0, U0, 0, 0), (U0, U1, 0, 1), (U0, U2, 0, 2), (U0, U31, 0, 31), (U0, U32, 0, 32), (U1, U0, 1, 0), (U1, U1, 1, 1), (U1, U2, 1, 2), (U1, U31, 1, 31), (U1, U32, 1, 32), (U30, U0, 30, 0), (U30, U1, 30, 1), (U30, U2, 30, 2), (U30, U31, 30, 31), (U30, U32, 30, 32), (U31, U0, 31, 0), (U31, U1, 31, 1), (U31, U2, 31, 2), (U31, U31, 31, 31), (U31, U32, 31, 32), (U32, U0, 32, 0), (U32, U1, 32, 1), (U32, U2, 32, 2), (U32, U31, 32, 31), (U32, U32, 32, 32), (U33, U0, 33, 0), (U33, U1, 33, 1), (U33, U2, 33, 2), (U33, U31, 33, 31), (U33, U32, 33, 32));
    sm!(v U1 U32 1, 32; (U0, U0, 0, 0), (U0, U1, 0, 1), (U0, U30, 0, 30), (U0, U31, 0, 31), (U0, U32, 0, 32), (U0, U33, 0, 33), (U1, U0, 1, 0), (U1, U1, 1, 1), (U1, U30, 1, 30), (U1, U31, 1, 31), (U1, U32, 1, 32), (U1, U33, 1, 33), (U2, U0, 2, 0), (U2, U1, 2, 1), (U2, U30, 2, 30), (U2, U31, 2, 31), (U2, U32, 2, 32), (U2, U33, 2, 33), (U31, U0, 31, 0), (U31, U1, 31, 1), (U31, U30, 31, 30), (U31, U31, 31, 31), (U31, U32, 31, 32), (U31, U33, 31, 33), (U32, U0, 32, 0), (U32, U1, 32, 1), (U32, U30, 32, 30), (U32, U31, 32, 31), (U32, U32, 32, 32), (U32, U33, 32, 33));
    sm!(v U31 U2 31, 2; (U0, U0, 0, 0), (U0, U1, 0, 1), (U0, U2, 0, 2), (U0, U3, 0, 3), (U0, U30, 0, 30), (U0, U31, 0, 31), (U1, U0, 1, 0), (U1, U1, 1, 1), (U1, U2, 1, 2), (U1, U3, 1, 3), (U1, U30, 1, 30), (U1, U31, 1, 31), (U2, U0, 2, 0), (U2, U1, 2, 1), (U2, U2, 2, 2), (U2, U3, 2, 3), (U2, U30, 2, 30), (U2, U31, 2, 31), (U29, U0, 29, 0), (U29, U1, 29, 1), (U29, U2, 29, 2), (U29, U3, 29, 3), (U29, U30, 29, 30), (U29, U31, 29, 31), (U30, U0, 30, 0), (U30, U1, 30, 1), (U30, U2, 30, 2), (U30, U3, 30, 3), (U30, U30, 30, 30), (U30, U31, 30, 31), (U31, U0, 31, 0), (U31, U1, 31, 1), (U31, U2, 31, 2), (U31, U3, 31, 3), (U31, U30, 31, 30), (U31, U31, 31, 31), (U32, U0, 32, 0), (U32, U1, 32, 1), (U32, U2, 32, 2), (U32, U3, 32, 3), (U32, U30, 32, 30), (U32, U31, 32, 31));
    sm!(v U2 U31 2, 31; (U0, U0, 0, 0), (U0, U1, 0, 1), (U0, U2, 0, 2), (U0, U29, 0, 29), (U0, U30, 0, 30), (U0, U31, 0, 31), (U0, U32, 0, 32), (U1, U0, 1, 0), (U1, U1, 1, 1), (U1, U2, 1, 2), (U1, U29, 1, 29), (U1, U30, 1, 30), (U1, U31, 1, 31), (U1, U32, 1, 32), (U2, U0, 2, 0), (U2, U1, 2, 1), (U2, U2, 2, 2), (U2, U29, 2, 29), (U2, U30, 2, 30), (U2, U31, 2, 31), (U2, U32, 2, 32), (U3, U0, 3, 0), (U3, U1, 3, 1), (U3, U2, 3, 2), (U3, U29, 3, 29), (U3, U30, 3, 30), (U3, U31, 3, 31), (U3, U32, 3, 32), (U30, U0, 30, 0), (U30, U1, 30, 1), (U30, U2, 30, 2), (U30, U29, 30, 29), (U30, U30, 30, 30), (U30, U31, 30, 31), (U30, U32, 30, 32), (U31, U0, 31, 0), (U31, U1, 31, 1), (U31, U2, 31, 2), (U31, U29, 31, 29), (U31, U30, 31, 30), (U31, U31, 31, 31), (U31, U32, 31, 32));
    sm!(v U0 U32 0, 32; (U0, U0, 0, 0), (U0, U1, 0, 1), (U0, U30, 0, 30), (U0, U31, 0, 31), (U0, U32, 0, 32), (U0, U33, 0, 33), (U1, U0, 1, 0), (U1, U1, 1, 1), (U1, U30, 1, 30), (U1, U31, 1, 31), (U1, U32, 1, 32), (U1, U33, 1, 33), (U31, U0, 31, 0), (U31, U1, 31, 1), (U31, U30, 31, 30), (U31, U31, 31, 31), (U31, U32, 31, 32), (U31, U33, 31, 33), (U32, U0, 32, 0), (U32, U1, 32, 1), (U32, U30, 32, 30), (U32, U31, 32, 31), (U32, U32, 32, 32), (U32, U33, 32, 33));
    sm!(v U32 U0 32, 0; (U0, U0, 0, 0), (U0, U1, 0, 1), (U0, U31, 0, 31), (U0, U32, 0, 32), (U1, U0, 1, 0), (U1, U1, 1, 1), (U1, U31, 1, 31), (U1, U32, 1, 32), (U30, U0, 30, 0), (U30, U1, 30, 1), (U30, U31, 30, 31), (U30, U32, 30, 32), (U31, U0, 31, 0), (U31, U1, 31, 1), (U31, U31, 31, 31), (U31, U32, 31, 32), (U32, U0, 32, 0), (U32, U1, 32, 1), (U32, U31, 32, 31), (U32, U32, 32, 32), (U33, U0, 33, 0), (U33, U1, 33, 1), (U33, U31, 33, 31), (U33, U32, 33, 32));
    sm!(v U6 U7 6, 7; (U0, U0, 0, 0), (U0, U1, 0, 1), (U0, U5, 0, 5), (U0, U6, 0, 6), (U0, U7, 0, 7), (U0, U8, 0, 8), (U1, U0, 1, 0), (U1, U1, 1, 1), (U1, U5, 1, 5), (U1, U6, 1, 6), (U1, U7, 1, 7), (U1, U8, 1, 8), (U4, U0, 4, 0), (U4, U1, 4, 1), (U4, U5, 4, 5), (U4, U6, 4, 6), (U4, U7, 4, 7), (U4, U8, 4, 8), (U5, U0, 5, 0), (U5, U1, 5, 1), (U5, U5, 5, 5), (U5, U6, 5, 6), (U5, U7, 5, 7), (U5, U8, 5, 8), (U6, U0, 6, 0), (U6, U1, 6, 1), (U6, U5, 6, 5), (U6, U6, 6, 6), (U6, U7, 6, 7), (U6, U8, 6, 8), (U7, U0, 7, 0), (U7, U1, 7, 1), (U7, U5, 7, 5), (U7, U6, 7, 6), (U7, U7, 7, 7), (U7, U8, 7, 8));
    sm!(v U10 U12 10, 12; (U0, U0, 0, 0), (U0, U1, 0, 1), (U0, U9, 0, 9), (U0, U10, 0, 10), (U0, U11, 0, 11), (U0, U12, 0, 12), (U0, U13, 0, 13), (U1, U0, 1, 0), (U1, U1, 1, 1), (U1, U9, 1, 9), (U1, U10, 1, 10), (U1, U11, 1, 11), (U1, U12, 1, 12), (U1, U13, 1, 13), (U8, U0, 8, 0), (U8, U1, 8, 1), (U8, U9, 8, 9), (U8, U10, 8, 10), (U8, U11, 8, 11), (U8, U12, 8, 12), (U8, U13, 8, 13), (U9, U0, 9, 0), (U9, U1, 9, 1), (U9, U9, 9, 9), (U9, U10, 9, 10), (U9, U11, 9, 11), (U9, U12, 9, 12), (U9, U13, 9, 13), (U10, U0, 10, 0), (U10, U1, 10, 1), (U10, U9, 10, 9), (U10, U10, 10, 10), (U10, U11, 10, 11), (U10, U12, 10, 12), (U10, U13, 10, 13), (U11, U0, 11, 0), (U11, U1, 11, 1), (U11, U9, 11, 9), (U11, U10, 11, 10), (U11, U11, 11, 11), (U11, U12, 11, 12), (U11, U13, 11, 13), (U12, U0, 12, 0), (U12, U1, 12, 1), (U12, U9, 12, 9), (U12, U10, 12, 10), (U12, U11, 12, 11), (U12, U12, 12, 12), (U12, U13, 12, 13));
    sm!(v U32 U32 32, 32; (U0, U0, 0, 0), (U0, U1, 0, 1), (U0, U30, 0, 30), (U0, U31, 0, 31), (U0, U32, 0, 32), (U0, U33, 0, 33), (U1, U0, 1, 0), (U1, U1, 1, 1), (U1, U30, 1, 30), (U1, U31, 1, 31), (U1, U32, 1, 32), (U1, U33, 1, 33), (U30, U0, 30, 0), (U30, U1, 30, 1), (U30, U30, 30, 30), (U30, U31, 30, 31), (U30, U32, 30, 32), (U30, U33, 30, 33), (U31, U0, 31, 0), (U31, U1, 31, 1), (U31, U30, 31, 30), (U31, U31, 31, 31), (U31, U32, 31, 32), (U31, U33, 31, 33), (U32, U0, 32, 0), (U32, U1, 32, 1), (U32, U30, 32, 30), (U32, U31, 32, 31), (U32, U32, 32, 32), (U32, U33, 32, 33), (U33, U0, 33, 0), (U33, U1, 33, 1), (U33, U30, 33, 30), (U33, U31, 33, 31), (U33, U32, 33, 32), (U33, U33, 33, 33));
    sm!(v U16 U17 16, 17; (U0, U0, 0, 0), (U0, U1, 0, 1), (U0, U15, 0, 15), (U0, U16, 0, 16), (U0, U17, 0, 17), (U0, U18, 0, 18), (U1, U0, 1, 0), (U1, U1, 1, 1), (U1, U15, 1, 15), (U1, U16, 1, 16), (U1, U17, 1, 17), (U1, U18, 1, 18), (U14, U0, 14, 0), (U14, U1, 14, 1), (U14, U15, 14, 15), (U14, U16, 14, 16), (U14, U17, 14, 17), (U14, U18, 14, 18), (U15, U0, 15, 0), (U15, U1, 15, 1), (U15, U15, 15, 15), (U15, U16, 15, 16), (U15, U17, 15, 17), (U15, U18, 15, 18), (U16, U0, 16, 0), (U16, U1, 16, 1), (U16, U15, 16, 15), (U16, U16, 16, 16), (U16, U17, 16, 17), (U16, U18, 16, 18), (U17, U0, 17, 0), (U17, U1, 17, 1), (U17, U15, 17, 15), (U17, U16, 17, 16), (U17, U17, 17, 17), (U17, U18, 17, 18));
}
fn static_miri(v: &mut Table) {
    sv!(v U0 0; U0 0, U1 1, U2 2, U3 3);
    sv!(v U1 1; U0 0, U1 1, U2 2, U3 3);
    sv!(v U3 3; U0 0, U1 1, U2 2, U3 3);
    sm!(v U2 U3 2, 3; (U0, U0, 0, 0), (U0, U1, 0, 1), (U0, U2, 0, 2), (U0, U3, 0, 3), (U1, U0, 1, 0), (U1, U1, 1, 1), (U1, U2, 1, 2), (U1, U3, 1, 3), (U2, U0, 2, 0), (U2, U1, 2, 1), (U2, U2, 2, 2), (U2, U3, 2, 3), (U3, U0, 3, 0), (U3, U1, 3, 1), (U3, U2, 3, 2), (U3, U3, 3, 3));
}

macro_rules! for_large_shapes_few {
    ($m:ident $(, $a:tt)*) => {
        $m!(U5, U5 $(, $a)*); $m!(U9, U9 $(, $a)*); $m!(U5, U8 $(, $a)*); $m!(U8, U5 $(, $a)*); $m!(U16, U2 $(, $a)*); $m!(U2, U16 $(, $a)*); $m!(U17, U3 $(, $a)*); $m!(U3, U17 $(, $a)*); $m!(U32, U1 $(, $a)*); $m!(U1, U32 $(, $a)*); $m!(U31, U2 $(, $a)*); $m!(U2, U31 $(, $a)*); $m!(U0, U32 $(, $a)*); $m!(U32, U0 $(, $a)*); $m!(U6, U7 $(, $a)*); $m!(U10, U12 $(, $a)*);
    };
}
