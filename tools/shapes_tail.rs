/// One entry of a table of monomorphic drivers: `v.push(("3x4", f::<U3, U4>))`.
#[macro_export]
macro_rules! push_shape {
    ($R:ident, $C:ident, $v:ident, $f:ident) => {
        $v.push((concat!(stringify!($R), "x", stringify!($C)), $f::<$R, $C> as fn(&mut $crate::Ctx)));
    };
}
#[macro_export]
macro_rules! push_len {
    ($N:ident, $n:expr, $v:ident, $f:ident) => {
        $v.push((stringify!($N), $f::<$N> as fn(&mut $crate::Ctx)));
    };
}
/// Drivers whose first type parameter is the element type.
#[macro_export]
macro_rules! push_len_of {
    ($N:ident, $n:expr, $v:ident, $f:ident, $T:ty) => {
        $v.push((concat!(stringify!($T), "^", stringify!($N)), $f::<$T, $N> as fn(&mut $crate::Ctx)));
    };
}
#[macro_export]
macro_rules! push_shape_of {
    ($R:ident, $C:ident, $v:ident, $f:ident, $T:ty) => {
        $v.push((concat!(stringify!($T), "^", stringify!($R), "x", stringify!($C)), $f::<$T, $R, $C> as fn(&mut $crate::Ctx)));
    };
}
pub type Table = Vec<(&'static str, fn(&mut crate::Ctx))>;

/// Explores a table of drivers: which one is the first decision.
pub fn explore_table(ck: &crate::Check, name: &str, table: &Table) {
    if table.is_empty() {
        return;
    }
    ck.bound(&format!("{}: instances", name), table.len());
    ck.explore(name, |ctx| {
        let (n, f) = table[ctx.choose(table.len())];
        crate::log!(ctx, "instance {}", n);
        f(ctx)
    });
}
