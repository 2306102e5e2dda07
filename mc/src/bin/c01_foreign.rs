//! A program outside the library that gives a length an array type of its own choosing.  Either the compiler refuses (it needs
//! `unsafe`), or running it stays inside the memory of the vectors: check.py runs it under Miri when it compiles.
#[cfg(feature = "foreign")]
mod program {
    use rowcol::prelude::*;
    use rowcol::typenum::consts::*;
    use rowcol::vector::ArrayLen;
    #[derive(Clone)]
    pub struct Mine(#[allow(dead_code)] Box<u8>);
    // no array at all, and an array that is too short
    impl ArrayLen<Mine> for U40 {
        type Array = Vec<Mine>;
    }
    impl ArrayLen<Mine> for U41 {
        type Array = [Mine; 1];
    }
    pub fn run() {
        let tries: [fn(); 4] = [
            || drop(Vector::<Mine, U40>::new(vec![]).into_iter().next()),
            || drop(Vector::<Mine, U40>::generate(|i| Mine(Box::new(i as u8)))),
            || drop(Vector::<Mine, U41>::new([Mine(Box::new(1))]).into_iter().nth(40)),
            || drop(Vector::<Mine, U41>::generate(|i| Mine(Box::new(i as u8)))),
        ];
        for t in tries {
            let _ = std::panic::catch_unwind(t);
        }
    }
}
fn main() {
    #[cfg(feature = "foreign")]
    program::run();
}
