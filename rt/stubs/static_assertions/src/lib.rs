#[macro_export]
macro_rules! const_assert { ($x:expr $(,)?) => { const _: () = assert!($x); } }
#[macro_export]
macro_rules! const_assert_eq { ($x:expr, $y:expr $(,)?) => { const _: () = assert!($x == $y); } }
