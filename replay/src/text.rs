//! Functions on text.
use libm::support::Round;
use libm::support::hex_float::{Hex, parse_any, parse_hex_exact};
use std::panic::{AssertUnwindSafe, catch_unwind};

fn bytes(s: &str) -> String {
    let s = if s == "-" { "" } else { s };
    let v: Vec<u8> = (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect();
    // the parser looks at bytes only
    unsafe { String::from_utf8_unchecked(v) }
}

fn target(bits: u32) -> u32 {
    match bits {
        16 => 10,
        32 => 23,
        64 => 52,
        _ => 112,
    }
}

/// hexparse BITS ROUND TEXT, hexvalue BITS ROUND SIGNIFICAND EXPONENT, hexexact BITS TEXT, hexfmt BITS PATTERN
pub fn run(name: &str, args: &[&str]) -> Option<String> {
    if !name.starts_with("hex") {
        return None;
    }
    let bits = u32::from_str_radix(args[0], 16).unwrap();
    let (name, given) = match name {
        "hexvalue" => {
            let exp = u32::from_str_radix(args[3], 16).unwrap() as i32;
            ("hexparse", format!("0x{}p{exp}", args[2]))
        }
        "hexparse" => (name, bytes(args[2])),
        "hexexact" => (name, bytes(args[1])),
        _ => (name, String::new()),
    };
    let r = catch_unwind(AssertUnwindSafe(|| match name {
        "hexparse" => {
            let round = [Round::Nearest, Round::Negative, Round::Positive, Round::Zero][args[1].parse::<usize>().unwrap()];
            match parse_any(&given, bits, target(bits), round) {
                Ok((v, st)) => format!("1 {v:x} {:x}", st.overflow() as u8 * 4 + st.underflow() as u8 * 8 + st.inexact() as u8 * 16),
                Err(_) => "0".into(),
            }
        }
        "hexexact" => match parse_hex_exact(&given, bits, target(bits)) {
            Ok(v) => format!("1 {v:x}"),
            Err(_) => "0".into(),
        },
        _ => {
            let x = u128::from_str_radix(args[1], 16).unwrap();
            let s = match bits {
                16 => format!("{}", Hex(f16::from_bits(x as u16))),
                32 => format!("{}", Hex(f32::from_bits(x as u32))),
                64 => format!("{}", Hex(f64::from_bits(x as u64))),
                _ => format!("{}", Hex(f128::from_bits(x))),
            };
            match parse_hex_exact(&s, bits, target(bits)) {
                Ok(v) => format!("1 {v:x}"),
                Err(_) => "0".into(),
            }
        }
    }));
    Some(r.unwrap_or("panic".into()))
}
