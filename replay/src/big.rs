//! 256-bit helper integers, through the instances of the driver crate.
use crate::{Bits, Fun, Tab};
use driver_libm as d;

pub fn add(m: &mut Tab) {
    def! { m;
        "u256_add": |al: u128, ah: u128, bl: u128, bh: u128| { let mut o = [0 as u128; 2]; d::u256_add(al, ah, bl, bh, &mut o); (o[0], o[1]) };
        "u256_sub": |al: u128, ah: u128, bl: u128, bh: u128| { let mut o = [0 as u128; 2]; d::u256_sub(al, ah, bl, bh, &mut o); (o[0], o[1]) };
        "u256_or": |al: u128, ah: u128, bl: u128, bh: u128| { let mut o = [0 as u128; 2]; d::u256_or(al, ah, bl, bh, &mut o); (o[0], o[1]) };
        "u256_not": |al: u128, ah: u128, bl: u128, bh: u128| { let mut o = [0 as u128; 2]; d::u256_not(al, ah, bl, bh, &mut o); (o[0], o[1]) };
        "u256_shl": |al: u128, ah: u128, k: u32| { let mut o = [0 as u128; 2]; d::u256_shl(al, ah, k, &mut o); (o[0], o[1]) };
        "u256_shr": |al: u128, ah: u128, k: u32| { let mut o = [0 as u128; 2]; d::u256_shr(al, ah, k, &mut o); (o[0], o[1]) };
        "u256_lo_hi": |al: u128, ah: u128| { let mut o = [0 as u128; 2]; d::u256_lo_hi(al, ah, &mut o); (o[0], o[1]) };
        "u256_cmp": |al: u128, ah: u128, bl: u128, bh: u128| { let mut o = [0 as u8; 4]; d::u256_cmp(al, ah, bl, bh, &mut o); (o[0], o[1], o[2], o[3]) };
        "u128_widen": |a: u128| { let mut o = [0 as u128; 2]; d::u128_widen(a, &mut o); (o[0], o[1]) };
        "u128_zero_widen": |a: u128| { let mut o = [0 as u128; 2]; d::u128_zero_widen(a, &mut o); (o[0], o[1]) };
        "u128_widen_hi": |a: u128| { let mut o = [0 as u128; 2]; d::u128_widen_hi(a, &mut o); (o[0], o[1]) };
        "u128_zero_widen_mul": |a: u128, b: u128| { let mut o = [0 as u128; 2]; d::u128_zero_widen_mul(a, b, &mut o); (o[0], o[1]) };
        "i256_add": |al: u128, ah: u128, bl: u128, bh: u128| { let mut o = [0 as u128; 2]; d::i256_add(al, ah, bl, bh, &mut o); (o[0], o[1]) };
        "i256_sub": |al: u128, ah: u128, bl: u128, bh: u128| { let mut o = [0 as u128; 2]; d::i256_sub(al, ah, bl, bh, &mut o); (o[0], o[1]) };
        "i256_or": |al: u128, ah: u128, bl: u128, bh: u128| { let mut o = [0 as u128; 2]; d::i256_or(al, ah, bl, bh, &mut o); (o[0], o[1]) };
        "i256_not": |al: u128, ah: u128, bl: u128, bh: u128| { let mut o = [0 as u128; 2]; d::i256_not(al, ah, bl, bh, &mut o); (o[0], o[1]) };
        "i256_shl": |al: u128, ah: u128, k: u32| { let mut o = [0 as u128; 2]; d::i256_shl(al, ah, k, &mut o); (o[0], o[1]) };
        "i256_shr": |al: u128, ah: u128, k: u32| { let mut o = [0 as u128; 2]; d::i256_shr(al, ah, k, &mut o); (o[0], o[1]) };
        "i256_lo_hi": |al: u128, ah: u128| { let mut o = [0 as u128; 2]; d::i256_lo_hi(al, ah, &mut o); (o[0], o[1]) };
        "i256_cmp": |al: u128, ah: u128, bl: u128, bh: u128| { let mut o = [0 as u8; 4]; d::i256_cmp(al, ah, bl, bh, &mut o); (o[0], o[1], o[2], o[3]) };
        "i128_widen": |a: i128| { let mut o = [0 as u128; 2]; d::i128_widen(a, &mut o); (o[0], o[1]) };
        "i128_zero_widen": |a: i128| { let mut o = [0 as u128; 2]; d::i128_zero_widen(a, &mut o); (o[0], o[1]) };
        "i128_widen_hi": |a: i128| { let mut o = [0 as u128; 2]; d::i128_widen_hi(a, &mut o); (o[0], o[1]) };
        "i128_zero_widen_mul": |a: i128, b: i128| { let mut o = [0 as u128; 2]; d::i128_zero_widen_mul(a, b, &mut o); (o[0], o[1]) };
        "u256_from_lo_hi": |al: u128, ah: u128| { let mut o = [0 as u128; 2]; d::u256_from_lo_hi(al, ah, &mut o); (o[0], o[1]) };
        "u256_signed": |al: u128, ah: u128| { let mut o = [0 as u128; 2]; d::u256_signed(al, ah, &mut o); (o[0], o[1]) };
        "i256_unsigned": |al: u128, ah: u128| { let mut o = [0 as u128; 2]; d::i256_unsigned(al, ah, &mut o); (o[0], o[1]) };
        "u128_widen_mul": |a: u128, b: u128| { let mut o = [0 as u128; 2]; d::u128_widen_mul(a, b, &mut o); (o[0], o[1]) };
        "u32_widen_mul": |a: u32, b: u32| { let mut o = [0 as u32; 2]; d::u32_widen_mul(a, b, &mut o); (o[0], o[1]) };
        "u64_widen_mul": |a: u64, b: u64| { let mut o = [0 as u64; 2]; d::u64_widen_mul(a, b, &mut o); (o[0], o[1]) };
        "u16_narrowing_div": |lo: u8, hi: u8, n: u8| { let mut o = [0 as u8; 2]; let r = d::u16_narrowing_div(lo, hi, n, &mut o); (r, o[0], o[1]) };
        "u32_narrowing_div": |lo: u16, hi: u16, n: u16| { let mut o = [0 as u16; 2]; let r = d::u32_narrowing_div(lo, hi, n, &mut o); (r, o[0], o[1]) };
        "u64_narrowing_div": |lo: u32, hi: u32, n: u32| { let mut o = [0 as u32; 2]; let r = d::u64_narrowing_div(lo, hi, n, &mut o); (r, o[0], o[1]) };
        "u128_narrowing_div": |lo: u64, hi: u64, n: u64| { let mut o = [0 as u64; 2]; let r = d::u128_narrowing_div(lo, hi, n, &mut o); (r, o[0], o[1]) };
        "u256_narrowing_div": |lo: u128, hi: u128, n: u128| { let mut o = [0 as u128; 2]; let r = d::u256_narrowing_div(lo, hi, n, &mut o); (r, o[0], o[1]) };
    }
}
