//! Instances of the generic float functions that also report status.
#![no_std]
#![feature(f16, f128)]
use libm::generic;

macro_rules! status {
    ($($n:ident = $f:ident, $t:ty;)*) => {$(
        #[unsafe(no_mangle)]
        #[inline(never)]
        pub fn $n(x: $t, inexact: &mut u8) -> $t {
            let r = generic::$f(x);
            *inexact = r.status.inexact() as u8;
            r.val
        }
    )*};
}
status! {
    ceil_status_f16 = ceil_status, f16;
    ceil_status_f32 = ceil_status, f32;
    ceil_status_f64 = ceil_status, f64;
    ceil_status_f128 = ceil_status, f128;
    floor_status_f16 = floor_status, f16;
    floor_status_f32 = floor_status, f32;
    floor_status_f64 = floor_status, f64;
    floor_status_f128 = floor_status, f128;
    trunc_status_f16 = trunc_status, f16;
    trunc_status_f32 = trunc_status, f32;
    trunc_status_f64 = trunc_status, f64;
    trunc_status_f128 = trunc_status, f128;
    rint_status_f16 = rint_status, f16;
    rint_status_f32 = rint_status, f32;
    rint_status_f64 = rint_status, f64;
    rint_status_f128 = rint_status, f128;
}

// 256-bit helper integers
use libm::support::{DInt, HInt, NarrowingDiv, i256, u256};

fn u(lo: u128, hi: u128) -> u256 {
    u256 { lo, hi }
}
fn s(lo: u128, hi: u128) -> i256 {
    i256 { lo, hi: hi as i128 }
}
fn pu(x: u256, o: &mut [u128; 2]) {
    o[0] = x.lo;
    o[1] = x.hi;
}
fn ps(x: i256, o: &mut [u128; 2]) {
    o[0] = x.lo;
    o[1] = x.hi as u128;
}
macro_rules! big {
    ($($m:ident $p:ident { $($n:ident = |$a:ident $(, $b:ident)?| $e:expr;)* })*) => {$($(
        #[unsafe(no_mangle)]
        #[inline(never)]
        pub fn $n(a_lo: u128, a_hi: u128, b_lo: u128, b_hi: u128, o: &mut [u128; 2]) {
            let $a = $m(a_lo, a_hi);
            $(let $b = $m(b_lo, b_hi);)?
            let _ = (b_lo, b_hi);
            $p($e, o)
        }
    )*)*};
}
big! {
    u pu {
        u256_add = |a, b| a + b;
        u256_sub = |a, b| a - b;
        u256_or = |a, b| a | b;
        u256_not = |a| !a;
    }
    s ps {
        i256_add = |a, b| a + b;
        i256_sub = |a, b| a - b;
        i256_or = |a, b| a | b;
        i256_not = |a| !a;
    }
}
macro_rules! bigx {
    ($($n:ident = |$($a:ident : $t:ty),*| $e:expr;)*) => {$(
        #[unsafe(no_mangle)]
        #[inline(never)]
        pub fn $n($($a: $t),*) { $e }
    )*};
}
bigx! {
    u256_shl = |a_lo: u128, a_hi: u128, k: u32, o: &mut [u128; 2]| pu(u(a_lo, a_hi) << k, o);
    u256_shr = |a_lo: u128, a_hi: u128, k: u32, o: &mut [u128; 2]| pu(u(a_lo, a_hi) >> k, o);
    i256_shl = |a_lo: u128, a_hi: u128, k: u32, o: &mut [u128; 2]| ps(s(a_lo, a_hi) << k, o);
    i256_shr = |a_lo: u128, a_hi: u128, k: u32, o: &mut [u128; 2]| ps(s(a_lo, a_hi) >> k, o);
    u256_from_lo_hi = |lo: u128, hi: u128, o: &mut [u128; 2]| pu(u256::from_lo_hi(lo, hi), o);
    u256_lo_hi = |a_lo: u128, a_hi: u128, o: &mut [u128; 2]| { let (l, h) = u(a_lo, a_hi).lo_hi(); o[0] = l; o[1] = h; };
    i256_lo_hi = |a_lo: u128, a_hi: u128, o: &mut [u128; 2]| { let (l, h) = s(a_lo, a_hi).lo_hi(); o[0] = l as u128; o[1] = h as u128; };
    u256_signed = |a_lo: u128, a_hi: u128, o: &mut [u128; 2]| ps(u(a_lo, a_hi).signed(), o);
    i256_unsigned = |a_lo: u128, a_hi: u128, o: &mut [u128; 2]| pu(s(a_lo, a_hi).unsigned(), o);
    u128_widen = |a: u128, o: &mut [u128; 2]| pu(HInt::widen(a), o);
    u128_zero_widen = |a: u128, o: &mut [u128; 2]| pu(a.zero_widen(), o);
    u128_widen_hi = |a: u128, o: &mut [u128; 2]| pu(a.widen_hi(), o);
    i128_widen = |a: i128, o: &mut [u128; 2]| ps(HInt::widen(a), o);
    i128_zero_widen = |a: i128, o: &mut [u128; 2]| ps(a.zero_widen(), o);
    i128_widen_hi = |a: i128, o: &mut [u128; 2]| ps(a.widen_hi(), o);
    u128_widen_mul = |a: u128, b: u128, o: &mut [u128; 2]| pu(a.widen_mul(b), o);
    u128_zero_widen_mul = |a: u128, b: u128, o: &mut [u128; 2]| pu(a.zero_widen_mul(b), o);
    i128_zero_widen_mul = |a: i128, b: i128, o: &mut [u128; 2]| ps(a.zero_widen_mul(b), o);
    u64_widen_mul = |a: u64, b: u64, o: &mut [u64; 2]| { let (l, h) = a.widen_mul(b).lo_hi(); o[0] = l; o[1] = h; };
    u32_widen_mul = |a: u32, b: u32, o: &mut [u32; 2]| { let (l, h) = a.widen_mul(b).lo_hi(); o[0] = l; o[1] = h; };
    u256_cmp = |a_lo: u128, a_hi: u128, b_lo: u128, b_hi: u128, o: &mut [u8; 4]| {
        let (a, b) = (u(a_lo, a_hi), u(b_lo, b_hi));
        o[0] = (a < b) as u8; o[1] = (a == b) as u8; o[2] = (a > b) as u8; o[3] = (a <= b) as u8;
    };
    i256_cmp = |a_lo: u128, a_hi: u128, b_lo: u128, b_hi: u128, o: &mut [u8; 4]| {
        let (a, b) = (s(a_lo, a_hi), s(b_lo, b_hi));
        o[0] = (a < b) as u8; o[1] = (a == b) as u8; o[2] = (a > b) as u8; o[3] = (a <= b) as u8;
    };
}
macro_rules! ndiv {
    ($($n:ident = |$a:ident : $t:ty, $b:ident : $h:ty| $e:expr;)*) => {$(
        #[unsafe(no_mangle)]
        #[inline(never)]
        pub fn $n(lo: $h, hi: $h, $b: $h, o: &mut [$h; 2]) -> bool {
            let $a: $t = <$t>::from_lo_hi(lo, hi);
            match $e {
                Some((q, r)) => { o[0] = q; o[1] = r; true }
                None => { o[0] = 0; o[1] = 0; false }
            }
        }
    )*};
}
ndiv! {
    u16_narrowing_div = |a: u16, n: u8| a.checked_narrowing_div_rem(n);
    u32_narrowing_div = |a: u32, n: u16| a.checked_narrowing_div_rem(n);
    u64_narrowing_div = |a: u64, n: u32| a.checked_narrowing_div_rem(n);
    u128_narrowing_div = |a: u128, n: u64| a.checked_narrowing_div_rem(n);
    u256_narrowing_div = |a: u256, n: u128| a.checked_narrowing_div_rem(n);
}
