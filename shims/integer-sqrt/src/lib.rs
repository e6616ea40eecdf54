//! Offline stand-in for `integer-sqrt`.
pub trait IntegerSquareRoot: Sized {
    fn integer_sqrt(&self) -> Self {
        self.integer_sqrt_checked().expect("cannot calculate square root of negative number")
    }
    fn integer_sqrt_checked(&self) -> Option<Self>;
}
macro_rules! imp { ($($t:ty),*) => {$(
    impl IntegerSquareRoot for $t {
        fn integer_sqrt_checked(&self) -> Option<Self> {
            #[allow(unused_comparisons)]
            if *self < 0 { return None }
            Some(self.isqrt())
        }
    }
)*} }
imp!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
