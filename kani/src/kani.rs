//! Native stand-in for the symbolic inputs: values come from a counterexample, in order.
use std::cell::RefCell;
thread_local!(static VALS: RefCell<std::collections::VecDeque<Vec<u8>>> = RefCell::default());

/// Bytes of the counterexample, one vector per symbolic value.
pub fn load(v: Vec<Vec<u8>>) {
    VALS.with(|x| *x.borrow_mut() = v.into());
}
pub trait Arbitrary: Sized {
    fn take() -> Self;
}
macro_rules! arb {
    ($($t:ty),*) => { $( impl Arbitrary for $t {
        fn take() -> Self {
            let v = VALS.with(|x| x.borrow_mut().pop_front()).unwrap_or_default();
            let mut b = [0u8; std::mem::size_of::<$t>()];
            for (d, s) in b.iter_mut().zip(v) { *d = s; }
            <$t>::from_le_bytes(b)
        }
    } )* };
}
arb!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64);
impl Arbitrary for bool {
    fn take() -> Self {
        u8::take() != 0
    }
}
pub fn any<T: Arbitrary>() -> T {
    T::take()
}
pub fn assume(c: bool) {
    if !c {
        println!("counterexample does not satisfy the assumption");
        std::process::exit(3);
    }
}
#[macro_export]
macro_rules! kani_cover {
    ($($t:tt)*) => {};
}
pub use kani_cover as cover;
