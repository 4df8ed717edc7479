//! Instances of the division algorithms that other targets select: the macros are the
//! repository's own source files, only the choice of algorithm per width is made here.
#![no_std]
#![allow(unused_macros, unused_unsafe, dead_code)]

#[macro_use]
#[path = "../../../repo/compiler-builtins/src/int/specialized_div_rem/norm_shift.rs"]
mod norm_shift;
#[macro_use]
#[path = "../../../repo/compiler-builtins/src/int/specialized_div_rem/binary_long.rs"]
mod binary_long;
#[macro_use]
#[path = "../../../repo/compiler-builtins/src/int/specialized_div_rem/delegate.rs"]
mod delegate;
#[macro_use]
#[path = "../../../repo/compiler-builtins/src/int/specialized_div_rem/asymmetric.rs"]
mod asymmetric;

fn zero_div_fn() -> ! {
    panic!("division by zero")
}

impl_normalization_shift!(u32_normalization_shift, false, 32, u32, i32, allow(dead_code));
impl_normalization_shift!(u64_normalization_shift, false, 64, u64, i64, allow(dead_code));

fn u32_by_u32_div_rem(duo: u32, div: u32) -> (u32, u32) {
    (duo / div, duo % div)
}

fn u64_by_u64_div_rem(duo: u64, div: u64) -> (u64, u64) {
    (duo / div, duo % div)
}

/// what the machine instruction computes; it traps where the quotient does not fit
unsafe fn u64_by_u32_div_rem(duo: u64, div: u32) -> (u32, u32) {
    assert!(((duo >> 32) as u32) < div);
    ((duo / div as u64) as u32, (duo % div as u64) as u32)
}

impl_binary_long!(u32_long, zero_div_fn, u32_normalization_shift, 32, u32, i32);
impl_binary_long!(u64_long, zero_div_fn, u64_normalization_shift, 64, u64, i64);
impl_delegate!(u64_delegate, zero_div_fn, u32_normalization_shift, u32_by_u32_div_rem, 16, u16, u32, u64, i64);
impl_delegate!(u128_delegate, zero_div_fn, u64_normalization_shift, u64_by_u64_div_rem, 32, u32, u64, u128, i128);
impl_asymmetric!(u64_asymmetric, zero_div_fn, u32_by_u32_div_rem, u64_by_u32_div_rem, 16, u16, u32, u64);

macro_rules! entry {
    ($($n:ident = $f:ident : $t:ty;)*) => {$(
        #[unsafe(no_mangle)]
        pub fn $n(n: $t, d: $t, rem: &mut $t) -> $t {
            let (q, r) = $f(n, d);
            *rem = r;
            q
        }
    )*};
}
entry! {
    div_u32_long = u32_long: u32;
    div_u64_long = u64_long: u64;
    div_u64_delegate = u64_delegate: u64;
    div_u128_delegate = u128_delegate: u128;
    div_u64_asymmetric = u64_asymmetric: u64;
}
#[unsafe(no_mangle)]
pub fn div_u128_sparc(n: u128, d: u128, rem: &mut u128) -> u128 {
    delegate::u128_divide_sparc(n, d, rem)
}
