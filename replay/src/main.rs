//! Runs functions of the libraries on concrete inputs given on standard input.
//! One line per call: name, then hexadecimal bit patterns of the arguments.
//! Output per line: hexadecimal results, or `panic`.
#![feature(f16, f128)]
#![allow(clippy::all)]
use std::collections::HashMap;
use std::io::{BufRead, Write};

use compiler_builtins::float as cf;
use compiler_builtins::int as ci;

mod text;

pub trait Bits: Sized {
    fn from_bits_(x: u128) -> Self;
    fn to_bits_(self, out: &mut Vec<u128>);
}
macro_rules! bits_int {
    ($($t:ty, $u:ty;)*) => {$(
        impl Bits for $t {
            fn from_bits_(x: u128) -> Self { x as $t }
            fn to_bits_(self, out: &mut Vec<u128>) { out.push(self as $u as u128) }
        }
    )*};
}
bits_int! { u8,u8; u16,u16; u32,u32; u64,u64; u128,u128; usize,usize; i8,u8; i16,u16; i32,u32; i64,u64; i128,u128; isize,usize; }
macro_rules! bits_float {
    ($($t:ty, $u:ty;)*) => {$(
        impl Bits for $t {
            fn from_bits_(x: u128) -> Self { <$t>::from_bits(x as $u) }
            fn to_bits_(self, out: &mut Vec<u128>) { out.push(self.to_bits() as u128) }
        }
    )*};
}
bits_float! { f16,u16; f32,u32; f64,u64; f128,u128; }
impl Bits for bool {
    fn from_bits_(x: u128) -> Self { x & 1 == 1 }
    fn to_bits_(self, out: &mut Vec<u128>) { out.push(self as u128) }
}
impl Bits for () {
    fn from_bits_(_: u128) -> Self {}
    fn to_bits_(self, _: &mut Vec<u128>) {}
}
macro_rules! bits_tuple {
    ($($n:ident),*) => {
        impl<$($n: Bits),*> Bits for ($($n,)*) {
            fn from_bits_(_: u128) -> Self { unreachable!() }
            #[allow(non_snake_case)]
            fn to_bits_(self, out: &mut Vec<u128>) { let ($($n,)*) = self; $($n.to_bits_(out);)* }
        }
    };
}
bits_tuple!(A, B);
bits_tuple!(A, B, C);
bits_tuple!(A, B, C, D);

type Fun = Box<dyn Fn(&[u128]) -> Vec<u128>>;
type Tab = HashMap<&'static str, Fun>;

macro_rules! def {
    ($m:ident; $($(#[$c:meta])* $name:literal : |$($a:ident : $t:ty),*| $e:expr;)*) => {$(
        $(#[$c])*
        $m.insert($name, Box::new(|args: &[u128]| {
            let mut it = args.iter();
            $(let $a: $t = <$t as Bits>::from_bits_(*it.next().expect("missing argument"));)*
            let _ = it;
            let r = $e;
            let mut out = Vec::new();
            Bits::to_bits_(r, &mut out);
            out
        }) as Fun);
    )*};
}
mod big;
mod memops;
macro_rules! fns {
    ($m:ident; $($($seg:ident)::+ ( $($a:ident : $t:ty),* );)*) => {$(
        $m.insert(last(stringify!($($seg)::+)), Box::new(|args: &[u128]| {
            let mut it = args.iter();
            $(let $a: $t = <$t as Bits>::from_bits_(*it.next().expect("missing argument"));)*
            let _ = it;
            let r = $($seg)::+($($a),*);
            let mut out = Vec::new();
            Bits::to_bits_(r, &mut out);
            out
        }) as Fun);
    )*};
}
fn last(s: &'static str) -> &'static str {
    s.rsplit("::").next().unwrap().trim()
}

fn ints(m: &mut Tab) {
    fns! { m;
        ci::addsub::__rust_i128_add(a: i128, b: i128);
        ci::addsub::__rust_u128_add(a: u128, b: u128);
        ci::addsub::__rust_i128_sub(a: i128, b: i128);
        ci::addsub::__rust_u128_sub(a: u128, b: u128);
        ci::bswap::__bswapsi2(a: u32);
        ci::bswap::__bswapdi2(a: u64);
        ci::bswap::__bswapti2(a: u128);
        ci::leading_zeros::__clzsi2(a: u32);
        ci::leading_zeros::__clzdi2(a: u64);
        ci::leading_zeros::__clzti2(a: u128);
        ci::trailing_zeros::__ctzsi2(a: u32);
        ci::trailing_zeros::__ctzdi2(a: u64);
        ci::trailing_zeros::__ctzti2(a: u128);
        ci::mul::__muldi3(a: u64, b: u64);
        ci::mul::__multi3(a: i128, b: i128);
        ci::shift::__ashlsi3(a: u32, b: u32);
        ci::shift::__ashldi3(a: u64, b: u32);
        ci::shift::__ashlti3(a: u128, b: u32);
        ci::shift::__ashrsi3(a: i32, b: u32);
        ci::shift::__ashrdi3(a: i64, b: u32);
        ci::shift::__ashrti3(a: i128, b: u32);
        ci::shift::__lshrsi3(a: u32, b: u32);
        ci::shift::__lshrdi3(a: u64, b: u32);
        ci::shift::__lshrti3(a: u128, b: u32);
        ci::udiv::__udivsi3(a: u32, b: u32);
        ci::udiv::__umodsi3(a: u32, b: u32);
        ci::udiv::__udivdi3(a: u64, b: u64);
        ci::udiv::__umoddi3(a: u64, b: u64);
        ci::udiv::__udivti3(a: u128, b: u128);
        ci::udiv::__umodti3(a: u128, b: u128);
        ci::sdiv::__divsi3(a: i32, b: i32);
        ci::sdiv::__modsi3(a: i32, b: i32);
        ci::sdiv::__divdi3(a: i64, b: i64);
        ci::sdiv::__moddi3(a: i64, b: i64);
        ci::sdiv::__divti3(a: i128, b: i128);
        ci::sdiv::__modti3(a: i128, b: i128);
    }
    def! { m;
        "leading_zeros_default_u32": |a: u32| ci::leading_zeros::leading_zeros_default(a);
        "leading_zeros_default_u64": |a: u64| ci::leading_zeros::leading_zeros_default(a);
        "leading_zeros_condset_u32": |a: u32| ci::leading_zeros::leading_zeros_condset(a);
        "leading_zeros_condset_u64": |a: u64| ci::leading_zeros::leading_zeros_condset(a);
        "trailing_zeros_u32": |a: u32| ci::trailing_zeros::trailing_zeros(a);
        "trailing_zeros_u64": |a: u64| ci::trailing_zeros::trailing_zeros(a);
        "__rust_i128_addo": |a: i128, b: i128| { let mut o = 77; let r = ci::addsub::__rust_i128_addo(a, b, &mut o); (r, o) };
        "__rust_u128_addo": |a: u128, b: u128| { let mut o = 77; let r = ci::addsub::__rust_u128_addo(a, b, &mut o); (r, o) };
        "__rust_i128_subo": |a: i128, b: i128| { let mut o = 77; let r = ci::addsub::__rust_i128_subo(a, b, &mut o); (r, o) };
        "__rust_u128_subo": |a: u128, b: u128| { let mut o = 77; let r = ci::addsub::__rust_u128_subo(a, b, &mut o); (r, o) };
        "__rust_i128_mulo": |a: i128, b: i128| { let mut o = 77; let r = ci::mul::__rust_i128_mulo(a, b, &mut o); (r, o) };
        "__rust_u128_mulo": |a: u128, b: u128| { let mut o = 77; let r = ci::mul::__rust_u128_mulo(a, b, &mut o); (r, o) };
        "__mulosi4": |a: i32, b: i32| { let mut o = 77; let r = ci::mul::__mulosi4(a, b, &mut o); (r, o) };
        "__mulodi4": |a: i64, b: i64| { let mut o = 77; let r = ci::mul::__mulodi4(a, b, &mut o); (r, o) };
        "__muloti4": |a: i128, b: i128| { let mut o = 77; let r = ci::mul::__muloti4(a, b, &mut o); (r, o) };
        "__udivmodsi4": |a: u32, b: u32| { let mut o = 77; let r = ci::udiv::__udivmodsi4(a, b, Some(&mut o)); (r, o) };
        "__udivmoddi4": |a: u64, b: u64| { let mut o = 77; let r = ci::udiv::__udivmoddi4(a, b, Some(&mut o)); (r, o) };
        "__udivmodti4": |a: u128, b: u128| { let mut o = 77; let r = ci::udiv::__udivmodti4(a, b, Some(&mut o)); (r, o) };
        #[cfg(feature = "drivers")]
        "div_u32_long": |a: u32, b: u32| { let mut o = 77; let r = driver_div::div_u32_long(a, b, &mut o); (r, o) };
        #[cfg(feature = "drivers")]
        "div_u64_long": |a: u64, b: u64| { let mut o = 77; let r = driver_div::div_u64_long(a, b, &mut o); (r, o) };
        #[cfg(feature = "drivers")]
        "div_u64_delegate": |a: u64, b: u64| { let mut o = 77; let r = driver_div::div_u64_delegate(a, b, &mut o); (r, o) };
        #[cfg(feature = "drivers")]
        "div_u128_delegate": |a: u128, b: u128| { let mut o = 77; let r = driver_div::div_u128_delegate(a, b, &mut o); (r, o) };
        #[cfg(feature = "drivers")]
        "div_u128_sparc": |a: u128, b: u128| { let mut o = 77; let r = driver_div::div_u128_sparc(a, b, &mut o); (r, o) };
        #[cfg(feature = "drivers")]
        "div_u64_asymmetric": |a: u64, b: u64| { let mut o = 77; let r = driver_div::div_u64_asymmetric(a, b, &mut o); (r, o) };
        "__udivmodsi4.none": |a: u32, b: u32| ci::udiv::__udivmodsi4(a, b, None);
        "__udivmoddi4.none": |a: u64, b: u64| ci::udiv::__udivmoddi4(a, b, None);
        "__udivmodti4.none": |a: u128, b: u128| ci::udiv::__udivmodti4(a, b, None);
        "__divmodsi4": |a: i32, b: i32| { let mut o = 77; let r = ci::sdiv::__divmodsi4(a, b, &mut o); (r, o) };
        "__divmoddi4": |a: i64, b: i64| { let mut o = 77; let r = ci::sdiv::__divmoddi4(a, b, &mut o); (r, o) };
        "__divmodti4": |a: i128, b: i128| { let mut o = 77; let r = ci::sdiv::__divmodti4(a, b, &mut o); (r, o) };
    }
}

macro_rules! cmpfns {
    ($m:ident, $t:ty; $($f:ident)*) => { fns! { $m; $(cf::cmp::$f(a: $t, b: $t);)* } };
}
fn floats(m: &mut Tab) {
    fns! { m;
        cf::add::__addhf3(a: f16, b: f16);
        cf::add::__addsf3(a: f32, b: f32);
        cf::add::__adddf3(a: f64, b: f64);
        cf::add::__addtf3(a: f128, b: f128);
        cf::sub::__subhf3(a: f16, b: f16);
        cf::sub::__subsf3(a: f32, b: f32);
        cf::sub::__subdf3(a: f64, b: f64);
        cf::sub::__subtf3(a: f128, b: f128);
        cf::mul::__mulhf3(a: f16, b: f16);
        cf::mul::__mulsf3(a: f32, b: f32);
        cf::mul::__muldf3(a: f64, b: f64);
        cf::mul::__multf3(a: f128, b: f128);
        cf::div::__divsf3(a: f32, b: f32);
        cf::div::__divdf3(a: f64, b: f64);
        cf::div::__divtf3(a: f128, b: f128);
        cf::pow::__powisf2(a: f32, b: i32);
        cf::pow::__powidf2(a: f64, b: i32);
        cf::pow::__powitf2(a: f128, b: i32);
        cf::conv::__floatunsisf(a: u32);
        cf::conv::__floatunsidf(a: u32);
        cf::conv::__floatundisf(a: u64);
        cf::conv::__floatundidf(a: u64);
        cf::conv::__floatuntisf(a: u128);
        cf::conv::__floatuntidf(a: u128);
        cf::conv::__floatunsitf(a: u32);
        cf::conv::__floatunditf(a: u64);
        cf::conv::__floatuntitf(a: u128);
        cf::conv::__floatsisf(a: i32);
        cf::conv::__floatsidf(a: i32);
        cf::conv::__floatdisf(a: i64);
        cf::conv::__floatdidf(a: i64);
        cf::conv::__floattisf(a: i128);
        cf::conv::__floattidf(a: i128);
        cf::conv::__floatsitf(a: i32);
        cf::conv::__floatditf(a: i64);
        cf::conv::__floattitf(a: i128);
        cf::conv::__fixunssfsi(a: f32);
        cf::conv::__fixunssfdi(a: f32);
        cf::conv::__fixunssfti(a: f32);
        cf::conv::__fixunsdfsi(a: f64);
        cf::conv::__fixunsdfdi(a: f64);
        cf::conv::__fixunsdfti(a: f64);
        cf::conv::__fixunstfsi(a: f128);
        cf::conv::__fixunstfdi(a: f128);
        cf::conv::__fixunstfti(a: f128);
        cf::conv::__fixsfsi(a: f32);
        cf::conv::__fixsfdi(a: f32);
        cf::conv::__fixsfti(a: f32);
        cf::conv::__fixdfsi(a: f64);
        cf::conv::__fixdfdi(a: f64);
        cf::conv::__fixdfti(a: f64);
        cf::conv::__fixtfsi(a: f128);
        cf::conv::__fixtfdi(a: f128);
        cf::conv::__fixtfti(a: f128);
        cf::extend::__extendsfdf2(a: f32);
        cf::extend::__extendhfsf2(a: f16);
        cf::extend::__gnu_h2f_ieee(a: f16);
        cf::extend::__extendhfdf2(a: f16);
        cf::extend::__extendhftf2(a: f16);
        cf::extend::__extendsftf2(a: f32);
        cf::extend::__extenddftf2(a: f64);
        cf::trunc::__truncdfsf2(a: f64);
        cf::trunc::__truncsfhf2(a: f32);
        cf::trunc::__gnu_f2h_ieee(a: f32);
        cf::trunc::__truncdfhf2(a: f64);
        cf::trunc::__trunctfhf2(a: f128);
        cf::trunc::__trunctfsf2(a: f128);
        cf::trunc::__trunctfdf2(a: f128);
    }
    cmpfns! { m, f16; __lehf2 __gehf2 __unordhf2 __eqhf2 __lthf2 __nehf2 __gthf2 }
    cmpfns! { m, f32; __lesf2 __gesf2 __unordsf2 __eqsf2 __ltsf2 __nesf2 __gtsf2 }
    cmpfns! { m, f64; __ledf2 __gedf2 __unorddf2 __eqdf2 __ltdf2 __nedf2 __gtdf2 }
    cmpfns! { m, f128; __letf2 __getf2 __unordtf2 __eqtf2 __lttf2 __netf2 __gttf2 }
}

macro_rules! libm1 { ($m:ident, $t:ty; $($f:ident)*) => { fns! { $m; $(libm::$f(a: $t);)* } }; }
macro_rules! libm2 { ($m:ident, $t:ty; $($f:ident)*) => { fns! { $m; $(libm::$f(a: $t, b: $t);)* } }; }
fn libms(m: &mut Tab) {
    libm1! { m, f16; ceilf16 fabsf16 floorf16 frexpf16 ilogbf16 rintf16 roundf16 roundevenf16 sqrtf16 truncf16 }
    libm1! { m, f128; ceilf128 fabsf128 floorf128 frexpf128 ilogbf128 rintf128 roundf128 roundevenf128 sqrtf128 truncf128 }
    libm1! { m, f64; ceil fabs floor frexp ilogb rint round roundeven sqrt trunc modf
        acos acosh asin asinh atan atanh cbrt cos cosh erf erfc exp exp10 exp2 expm1 j0 j1 y0 y1 lgamma lgamma_r
        log log10 log1p log2 sin sincos sinh tan tanh tgamma }
    libm1! { m, f32; ceilf fabsf floorf frexpf ilogbf rintf roundf roundevenf sqrtf truncf modff
        acosf acoshf asinf asinhf atanf atanhf cbrtf cosf coshf erff erfcf expf exp10f exp2f expm1f j0f j1f y0f y1f lgammaf lgammaf_r
        logf log10f log1pf log2f sinf sincosf sinhf tanf tanhf tgammaf }
    libm2! { m, f16; copysignf16 fdimf16 fmaxf16 fminf16 fmaximumf16 fminimumf16 fmaximum_numf16 fminimum_numf16 fmodf16 }
    libm2! { m, f128; copysignf128 fdimf128 fmaxf128 fminf128 fmaximumf128 fminimumf128 fmaximum_numf128 fminimum_numf128 fmodf128 }
    libm2! { m, f64; copysign fdim fmax fmin fmaximum fminimum fmaximum_num fminimum_num fmod nextafter remainder remquo pow atan2 hypot }
    libm2! { m, f32; copysignf fdimf fmaxf fminf fmaximumf fminimumf fmaximum_numf fminimum_numf fmodf nextafterf remainderf remquof powf atan2f hypotf }
    fns! { m;
        libm::fmaf16(a: f16, b: f16, c: f16);
        libm::fmaf(a: f32, b: f32, c: f32);
        libm::fma(a: f64, b: f64, c: f64);
        libm::fmaf128(a: f128, b: f128, c: f128);
        libm::scalbnf16(a: f16, b: i32);
        libm::scalbnf(a: f32, b: i32);
        libm::scalbn(a: f64, b: i32);
        libm::scalbnf128(a: f128, b: i32);
        libm::ldexpf16(a: f16, b: i32);
        libm::ldexpf(a: f32, b: i32);
        libm::ldexp(a: f64, b: i32);
        libm::ldexpf128(a: f128, b: i32);
        libm::jn(n: i32, a: f64);
        libm::yn(n: i32, a: f64);
        libm::jnf(n: i32, a: f32);
        libm::ynf(n: i32, a: f32);
    }
    macro_rules! st {
        ($n:literal, $f:ident, $t:ty) => {
            def! { m; $n: |a: $t| { let r = libm::generic::$f(a); (r.val, r.status.inexact()) }; }
        };
    }
    st!("ceil_status.f16", ceil_status, f16);
    st!("ceil_status.f32", ceil_status, f32);
    st!("ceil_status.f64", ceil_status, f64);
    st!("ceil_status.f128", ceil_status, f128);
    st!("floor_status.f16", floor_status, f16);
    st!("floor_status.f32", floor_status, f32);
    st!("floor_status.f64", floor_status, f64);
    st!("floor_status.f128", floor_status, f128);
    st!("trunc_status.f16", trunc_status, f16);
    st!("trunc_status.f32", trunc_status, f32);
    st!("trunc_status.f64", trunc_status, f64);
    st!("trunc_status.f128", trunc_status, f128);
    macro_rules! rs {
        ($n:literal, $t:ty) => {
            def! { m; $n: |a: $t| { let r = libm::generic::rint_status(a); (r.val, r.status.inexact()) }; }
        };
    }
    rs!("rint_status.f16", f16);
    rs!("rint_status.f32", f32);
    rs!("rint_status.f64", f64);
    rs!("rint_status.f128", f128);
}

fn main() {
    let mut m = Tab::new();
    ints(&mut m);
    floats(&mut m);
    libms(&mut m);
    big::add(&mut m);
    #[cfg(feature = "dispatch")]
    for (k, name) in ["dispatch_fma", "dispatch_fmaf"].into_iter().enumerate() {
        m.insert(name, Box::new(move |a: &[u128]| {
            let env: Vec<u64> = a[..25].iter().map(|x| *x as u64).collect();
            driver_dispatch::run(&env, a[25] as u32, a[26] as u32, k as u32).into_iter().map(u128::from).collect()
        }) as Fun);
    }
    std::panic::set_hook(Box::new(|i| eprintln!("{i}")));
    let stdin = std::io::stdin();
    let mut out = std::io::LineWriter::new(std::io::stdout().lock());
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let mut it = line.split_whitespace();
        let Some(name) = it.next() else { continue };
        let rest: Vec<&str> = it.collect();
        if name == "flush" {
            out.flush().unwrap();
            continue;
        }
        if let Some(r) = memops::run(name, &rest).or_else(|| text::run(name, &rest)) {
            writeln!(out, "{r}").unwrap();
            continue;
        }
        // symN.f: f(x, ...) and f(-x, ...) for x of N bits
        let (name, sym) = match name.strip_prefix("sym").and_then(|s| s.split_once('.')) {
            Some((bits, f)) => (f, bits.parse::<u32>().ok()),
            None => (name, None),
        };
        let Some(f) = m.get(name) else {
            writeln!(out, "unknown").unwrap();
            continue;
        };
        let args: Vec<u128> = rest.iter().map(|s| u128::from_str_radix(s, 16).unwrap()).collect();
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let mut v = f(&args);
            if let Some(n) = sym {
                let mut neg = args.clone();
                neg[0] ^= 1 << (n - 1);
                v.extend(f(&neg));
            }
            v
        })) {
            Ok(v) => {
                let s: Vec<String> = v.iter().map(|x| format!("{x:x}")).collect();
                writeln!(out, "{}", s.join(" ")).unwrap();
            }
            Err(_) => writeln!(out, "panic").unwrap(),
        }
    }
}
