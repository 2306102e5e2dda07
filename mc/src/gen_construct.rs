// generated by tools/gen_shapes.py

fn diag_table(v: &mut Table) {
    diag_case!(U0, U0, U0, v);
    diag_case!(U0, U1, U0, v);
    diag_case!(U0, U2, U0, v);
    diag_case!(U0, U3, U0, v);
    diag_case!(U0, U4, U0, v);
    diag_case!(U0, U5, U0, v);
    diag_case!(U0, U6, U0, v);
    diag_case!(U1, U0, U0, v);
    diag_case!(U1, U1, U1, v);
    diag_case!(U1, U2, U1, v);
    diag_case!(U1, U3, U1, v);
    diag_case!(U1, U4, U1, v);
    diag_case!(U1, U5, U1, v);
    diag_case!(U1, U6, U1, v);
    diag_case!(U2, U0, U0, v);
    diag_case!(U2, U1, U1, v);
    diag_case!(U2, U2, U2, v);
    diag_case!(U2, U3, U2, v);
    diag_case!(U2, U4, U2, v);
    diag_case!(U2, U5, U2, v);
    diag_case!(U2, U6, U2, v);
    diag_case!(U3, U0, U0, v);
    diag_case!(U3, U1, U1, v);
    diag_case!(U3, U2, U2, v);
    diag_case!(U3, U3, U3, v);
    diag_case!(U3, U4, U3, v);
    diag_case!(U3, U5, U3, v);
    diag_case!(U3, U6, U3, v);
    diag_case!(U4, U0, U0, v);
    diag_case!(U4, U1, U1, v);
    diag_case!(U4, U2, U2, v);
    diag_case!(U4, U3, U3, v);
    diag_case!(U4, U4, U4, v);
    diag_case!(U4, U5, U4, v);
    diag_case!(U4, U6, U4, v);
    diag_case!(U5, U0, U0, v);
    diag_case!(U5, U1, U1, v);
    diag_case!(U5, U2, U2, v);
    diag_case!(U5, U3, U3, v);
    diag_case!(U5, U4, U4, v);
    diag_case!(U5, U5, U5, v);
    diag_case!(U5, U6, U5, v);
    diag_case!(U6, U0, U0, v);
    diag_case!(U6, U1, U1, v);
    diag_case!(U6, U2, U2, v);
    diag_case!(U6, U3, U3, v);
    diag_case!(U6, U4, U4, v);
    diag_case!(U6, U5, U5, v);
    diag_case!(U6, U6, U6, v);
    diag_case!(U7, U7, U7, v);
    diag_case!(U8, U8, U8, v);
    diag_case!(U9, U9, U9, v);
    diag_case!(U10, U10, U10, v);
    diag_case!(U11, U11, U11, v);
    diag_case!(U12, U12, U12, v);
    diag_case!(U13, U13, U13, v);
    diag_case!(U14, U14, U14, v);
    diag_case!(U15, U15, U15, v);
    diag_case!(U16, U16, U16, v);
    diag_case!(U17, U17, U17, v);
    diag_case!(U18, U18, U18, v);
    diag_case!(U19, U19, U19, v);
    diag_case!(U20, U20, U20, v);
    diag_case!(U21, U21, U21, v);
    diag_case!(U22, U22, U22, v);
    diag_case!(U23, U23, U23, v);
    diag_case!(U24, U24, U24, v);
    diag_case!(U25, U25, U25, v);
    diag_case!(U26, U26, U26, v);
    diag_case!(U27, U27, U27, v);
    diag_case!(U28, U28, U28, v);
    diag_case!(U29, U29, U29, v);
    diag_case!(U30, U30, U30, v);
    diag_case!(U31, U31, U31, v);
    diag_case!(U32, U32, U32, v);
    diag_case!(U16, U0, U0, v);
    diag_case!(U0, U16, U0, v);
    diag_case!(U16, U1, U1, v);
    diag_case!(U1, U16, U1, v);
    diag_case!(U16, U2, U2, v);
    diag_case!(U2, U16, U2, v);
    diag_case!(U16, U3, U3, v);
    diag_case!(U3, U16, U3, v);
    diag_case!(U16, U5, U5, v);
    diag_case!(U5, U16, U5, v);
    diag_case!(U16, U8, U8, v);
    diag_case!(U8, U16, U8, v);
    diag_case!(U16, U15, U15, v);
    diag_case!(U15, U16, U15, v);
    diag_case!(U17, U0, U0, v);
    diag_case!(U0, U17, U0, v);
    diag_case!(U17, U1, U1, v);
    diag_case!(U1, U17, U1, v);
    diag_case!(U17, U2, U2, v);
    diag_case!(U2, U17, U2, v);
    diag_case!(U17, U3, U3, v);
    diag_case!(U3, U17, U3, v);
    diag_case!(U17, U5, U5, v);
    diag_case!(U5, U17, U5, v);
    diag_case!(U17, U8, U8, v);
    diag_case!(U8, U17, U8, v);
    diag_case!(U17, U15, U15, v);
    diag_case!(U15, U17, U15, v);
    diag_case!(U31, U0, U0, v);
    diag_case!(U0, U31, U0, v);
    diag_case!(U31, U1, U1, v);
    diag_case!(U1, U31, U1, v);
    diag_case!(U31, U2, U2, v);
    diag_case!(U2, U31, U2, v);
    diag_case!(U31, U3, U3, v);
    diag_case!(U3, U31, U3, v);
    diag_case!(U31, U5, U5, v);
    diag_case!(U5, U31, U5, v);
    diag_case!(U31, U8, U8, v);
    diag_case!(U8, U31, U8, v);
    diag_case!(U31, U15, U15, v);
    diag_case!(U15, U31, U15, v);
    diag_case!(U32, U0, U0, v);
    diag_case!(U0, U32, U0, v);
    diag_case!(U32, U1, U1, v);
    diag_case!(U1, U32, U1, v);
    diag_case!(U32, U2, U2, v);
    diag_case!(U2, U32, U2, v);
    diag_case!(U32, U3, U3, v);
    diag_case!(U3, U32, U3, v);
    diag_case!(U32, U5, U5, v);
    diag_case!(U5, U32, U5, v);
    diag_case!(U32, U8, U8, v);
    diag_case!(U8, U32, U8, v);
    diag_case!(U32, U15, U15, v);
    diag_case!(U15, U32, U15, v);
    diag_case!(U7, U8, U7, v);
    diag_case!(U8, U7, U7, v);
    diag_case!(U9, U12, U9, v);
    diag_case!(U12, U9, U9, v);
    diag_case!(U15, U16, U15, v);
    diag_case!(U16, U15, U15, v);
    diag_case!(U16, U17, U16, v);
    diag_case!(U17, U16, U16, v);
    diag_case!(U31, U32, U31, v);
    diag_case!(U32, U31, U31, v);
}

fn macro_table(v: &mut Table) {
    vec_case!(v, U0, 0, []);
    vec_case!(v, U1, 1, [e()]);
    vec_case!(v, U2, 2, [e(), e()]);
    vec_case!(v, U3, 3, [e(), e(), e()]);
    vec_case!(v, U4, 4, [e(), e(), e(), e()]);
    vec_case!(v, U5, 5, [e(), e(), e(), e(), e()]);
    vec_case!(v, U6, 6, [e(), e(), e(), e(), e(), e()]);
    vec_case!(v, U7, 7, [e(), e(), e(), e(), e(), e(), e()]);
    vec_case!(v, U8, 8, [e(), e(), e(), e(), e(), e(), e(), e()]);
    vec_case!(v, U9, 9, [e(), e(), e(), e(), e(), e(), e(), e(), e()]);
    vec_case!(v, U10, 10, [e(), e(), e(), e(), e(), e(), e(), e(), e(), e()]);
    vec_case!(v, U11, 11, [e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()]);
    vec_case!(v, U12, 12, [e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()]);
    vec_case!(v, U13, 13, [e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()]);
    vec_case!(v, U14, 14, [e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()]);
    vec_case!(v, U15, 15, [e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()]);
    vec_case!(v, U16, 16, [e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()]);
    vec_case!(v, U17, 17, [e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()]);
    vec_case!(v, U18, 18, [e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()]);
    vec_case!(v, U19, 19, [e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()]);
    vec_case!(v, U20, 20, [e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()]);
    vec_case!(v, U21, 21, [e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()]);
    vec_case!(v, U22, 22, [e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()]);
    vec_case!(v, U23, 23, [e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()]);
    vec_case!(v, U24, 24, [e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()]);
    vec_case!(v, U25, 25, [e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()]);
    vec_case!(v, U26, 26, [e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()]);
    vec_case!(v, U27, 27, [e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()]);
    vec_case!(v, U28, 28, [e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()]);
    vec_case!(v, U29, 29, [e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()]);
    vec_case!(v, U30, 30, [e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()]);
    vec_case!(v, U31, 31, [e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()]);
    vec_case!(v, U32, 32, [e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()]);
    mat_case!(v, U1, U0, 0usize, 0, [[]]);
    mat_case!(v, U1, U1, 1usize, 1, [[e()]]);
    mat_case!(v, U1, U2, 2usize, 2, [[e(), e()]]);
    mat_case!(v, U1, U3, 3usize, 3, [[e(), e(), e()]]);
    mat_case!(v, U1, U4, 4usize, 4, [[e(), e(), e(), e()]]);
    mat_case!(v, U1, U5, 5usize, 5, [[e(), e(), e(), e(), e()]]);
    mat_case!(v, U2, U0, 0usize, 0, [[], []]);
    mat_case!(v, U2, U1, 1usize, 2, [[e()], [e()]]);
    mat_case!(v, U2, U2, 2usize, 4, [[e(), e()], [e(), e()]]);
    mat_case!(v, U2, U3, 3usize, 6, [[e(), e(), e()], [e(), e(), e()]]);
    mat_case!(v, U2, U4, 4usize, 8, [[e(), e(), e(), e()], [e(), e(), e(), e()]]);
    mat_case!(v, U2, U5, 5usize, 10, [[e(), e(), e(), e(), e()], [e(), e(), e(), e(), e()]]);
    mat_case!(v, U3, U0, 0usize, 0, [[], [], []]);
    mat_case!(v, U3, U1, 1usize, 3, [[e()], [e()], [e()]]);
    mat_case!(v, U3, U2, 2usize, 6, [[e(), e()], [e(), e()], [e(), e()]]);
    mat_case!(v, U3, U3, 3usize, 9, [[e(), e(), e()], [e(), e(), e()], [e(), e(), e()]]);
    mat_case!(v, U3, U4, 4usize, 12, [[e(), e(), e(), e()], [e(), e(), e(), e()], [e(), e(), e(), e()]]);
    mat_case!(v, U3, U5, 5usize, 15, [[e(), e(), e(), e(), e()], [e(), e(), e(), e(), e()], [e(), e(), e(), e(), e()]]);
    mat_case!(v, U4, U0, 0usize, 0, [[], [], [], []]);
    mat_case!(v, U4, U1, 1usize, 4, [[e()], [e()], [e()], [e()]]);
    mat_case!(v, U4, U2, 2usize, 8, [[e(), e()], [e(), e()], [e(), e()], [e(), e()]]);
    mat_case!(v, U4, U3, 3usize, 12, [[e(), e(), e()], [e(), e(), e()], [e(), e(), e()], [e(), e(), e()]]);
    mat_case!(v, U4, U4, 4usize, 16, [[e(), e(), e(), e()], [e(), e(), e(), e()], [e(), e(), e(), e()], [e(), e(), e(), e()]]);
    mat_case!(v, U4, U5, 5usize, 20, [[e(), e(), e(), e(), e()], [e(), e(), e(), e(), e()], [e(), e(), e(), e(), e()], [e(), e(), e(), e(), e()]]);
    mat_case!(v, U5, U0, 0usize, 0, [[], [], [], [], []]);
    mat_case!(v, U5, U1, 1usize, 5, [[e()], [e()], [e()], [e()], [e()]]);
    mat_case!(v, U5, U2, 2usize, 10, [[e(), e()], [e(), e()], [e(), e()], [e(), e()], [e(), e()]]);
    mat_case!(v, U5, U3, 3usize, 15, [[e(), e(), e()], [e(), e(), e()], [e(), e(), e()], [e(), e(), e()], [e(), e(), e()]]);
    mat_case!(v, U5, U4, 4usize, 20, [[e(), e(), e(), e()], [e(), e(), e(), e()], [e(), e(), e(), e()], [e(), e(), e(), e()], [e(), e(), e(), e()]]);
    mat_case!(v, U5, U5, 5usize, 25, [[e(), e(), e(), e(), e()], [e(), e(), e(), e(), e()], [e(), e(), e(), e(), e()], [e(), e(), e(), e(), e()], [e(), e(), e(), e(), e()]]);
    mat_case!(v, U1, U9, 9usize, 9, [[e(), e(), e(), e(), e(), e(), e(), e(), e()]]);
    mat_case!(v, U9, U1, 1usize, 9, [[e()], [e()], [e()], [e()], [e()], [e()], [e()], [e()], [e()]]);
    mat_case!(v, U1, U32, 32usize, 32, [[e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()]]);
    mat_case!(v, U32, U1, 1usize, 32, [[e()], [e()], [e()], [e()], [e()], [e()], [e()], [e()], [e()], [e()], [e()], [e()], [e()], [e()], [e()], [e()], [e()], [e()], [e()], [e()], [e()], [e()], [e()], [e()], [e()], [e()], [e()], [e()], [e()], [e()], [e()], [e()]]);
    mat_case!(v, U8, U9, 9usize, 72, [[e(), e(), e(), e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e(), e(), e(), e()]]);
    mat_case!(v, U9, U8, 8usize, 72, [[e(), e(), e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e(), e(), e()]]);
    mat_case!(v, U16, U16, 16usize, 256, [[e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()]]);
    mat_case!(v, U32, U2, 2usize, 64, [[e(), e()], [e(), e()], [e(), e()], [e(), e()], [e(), e()], [e(), e()], [e(), e()], [e(), e()], [e(), e()], [e(), e()], [e(), e()], [e(), e()], [e(), e()], [e(), e()], [e(), e()], [e(), e()], [e(), e()], [e(), e()], [e(), e()], [e(), e()], [e(), e()], [e(), e()], [e(), e()], [e(), e()], [e(), e()], [e(), e()], [e(), e()], [e(), e()], [e(), e()], [e(), e()], [e(), e()], [e(), e()]]);
    mat_case!(v, U2, U32, 32usize, 64, [[e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()], [e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e(), e()]]);
    mat_case!(v, U32, U0, 0usize, 0, [[], [], [], [], [], [], [], [], [], [], [], [], [], [], [], [], [], [], [], [], [], [], [], [], [], [], [], [], [], [], [], []]);
    mat_case!(v, U0, U0, 0usize, 0, []);
}
