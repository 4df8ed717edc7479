//! Instances of the generic helpers that the libraries themselves do not instantiate on this target.
#![no_std]
use compiler_builtins::int::{leading_zeros as lz, trailing_zeros as tz};

macro_rules! inst {
    ($($n:ident = $f:path : ($($a:ident : $t:ty),*) -> $r:ty;)*) => {$(
        #[unsafe(no_mangle)]
        #[inline(never)]
        pub fn $n($($a: $t),*) -> $r { $f($($a),*) }
    )*};
}
inst! {
    leading_zeros_default_u32 = lz::leading_zeros_default::<u32>: (x: u32) -> usize;
    leading_zeros_default_u64 = lz::leading_zeros_default::<u64>: (x: u64) -> usize;
    leading_zeros_condset_u32 = lz::leading_zeros_condset::<u32>: (x: u32) -> usize;
    leading_zeros_condset_u64 = lz::leading_zeros_condset::<u64>: (x: u64) -> usize;
    trailing_zeros_u32 = tz::trailing_zeros::<u32>: (x: u32) -> usize;
    trailing_zeros_u64 = tz::trailing_zeros::<u64>: (x: u64) -> usize;
}
