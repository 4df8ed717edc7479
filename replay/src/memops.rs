//! Memory functions on a buffer between two inaccessible pages.
use compiler_builtins::mem as cm;

unsafe extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(a: *mut u8, n: usize, prot: i32) -> i32;
}

pub const LEN: usize = 1 << 13;
const PAGE: usize = 1 << 12;

fn buffer(seed: u64) -> *mut u8 {
    use std::sync::OnceLock;
    static BASE: OnceLock<usize> = OnceLock::new();
    let base = *BASE.get_or_init(|| unsafe {
        let p = mmap(core::ptr::null_mut(), LEN + 2 * PAGE, 0, 0x22, -1, 0);
        assert!(p as isize > 0);
        let b = p.add(PAGE);
        assert_eq!(mprotect(b, LEN, 3), 0);
        b as usize
    });
    let mut x = seed.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(0x1234567);
    if x == 0 {
        x = 1;
    }
    for i in 0..LEN / 8 {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        unsafe { (base as *mut u64).add(i).write(x) };
    }
    base as *mut u8
}

fn digest(b: *const u8) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for i in 0..LEN / 8 {
        h = (h ^ unsafe { (b as *const u64).add(i).read() }).wrapping_mul(0x100000001b3);
        h ^= h >> 29;
    }
    h
}

pub fn run(name: &str, args: &[&str]) -> Option<String> {
    if !["memcpy", "memmove", "memset", "memcmp", "bcmp", "strlen", "aligned_memcpy", "aligned_memmove"].contains(&name) {
        return None;
    }
    let a: Vec<u64> = args.iter().map(|s| u64::from_str_radix(s, 16).unwrap()).collect();
    let u = |i: usize| a[i] as usize;
    unsafe {
        let r = match name {
            "memcpy" | "memmove" | "aligned_memcpy" | "aligned_memmove" => {
                let b = buffer(a[3]);
                assert!(u(0).max(u(1)) + u(2) <= LEN);
                let (d, s, n) = (b.add(u(0)), b.add(u(1)) as *const u8, u(2));
                let r = match name {
                    "memcpy" => cm::memcpy(d, s, n),
                    "memmove" => cm::memmove(d, s, n),
                    #[cfg(feature = "drivers")]
                    "aligned_memcpy" => driver_mem::aligned_memcpy(d, s, n),
                    #[cfg(feature = "drivers")]
                    "aligned_memmove" => driver_mem::aligned_memmove(d, s, n),
                    _ => return None,
                };
                format!("{:x} {:x}", (r as usize).wrapping_sub(b as usize), digest(b))
            }
            "memset" => {
                let b = buffer(a[3]);
                assert!(u(0) + u(2) <= LEN);
                let r = cm::memset(b.add(u(0)), a[1] as i32, u(2));
                format!("{:x} {:x}", (r as usize).wrapping_sub(b as usize), digest(b))
            }
            "memcmp" | "bcmp" => {
                // the second range is a copy of the first up to the byte at the given position
                let b = buffer(a[3]);
                let (p, q, n, k) = (u(0), u(1), u(2), u(4));
                assert!(p.max(q) + n <= LEN && (p + n <= q || q + n <= p));
                for i in 0..n.min(k) {
                    b.add(q + i).write_volatile(b.add(p + i).read_volatile());
                }
                if k < n {
                    b.add(p + k).write_volatile(a[5] as u8);
                    b.add(q + k).write_volatile(a[6] as u8);
                }
                let r = if name == "memcmp" { cm::memcmp(b.add(p), b.add(q), n) } else { cm::bcmp(b.add(p), b.add(q), n) };
                format!("{:x}", r as u32)
            }
            _ => {
                let b = buffer(a[2]);
                let (p, n) = (u(0), u(1));
                assert!(p + n < LEN);
                for i in 0..n {
                    let c = b.add(p + i);
                    if c.read_volatile() == 0 || a[3] == 1 {
                        c.write_volatile(if i % 2 == 0 { 1 } else { 0x80 });
                    }
                }
                b.add(p + n).write_volatile(0);
                format!("{:x}", cm::strlen(b.add(p) as *const _))
            }
        };
        Some(r)
    }
}
