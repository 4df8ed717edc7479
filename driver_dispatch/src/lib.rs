//! The run-time dispatch of the math library on a CPU given by its CPUID values: the repository's
//! own source files, with the machine instructions and the atomics they use replaced by ones that
//! record what is executed and that let another call run in between.
#![allow(dead_code, unused_imports, unused_mut, unused_macros, unused_unsafe, unexpected_cfgs, clippy::all)]
extern crate self as core;

pub use std::{clone, cmp, convert, fmt, hint, iter, marker, mem, ops, option, ptr, slice, u32};

use std::cell::{Cell, RefCell};

thread_local! {
    static ENV: RefCell<Vec<u64>> = const { RefCell::new(Vec::new()) };
    static RAN: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) };
    static GEN: Cell<u32> = const { Cell::new(0) };
    static OPS: Cell<u32> = const { Cell::new(0) };
    static AT: Cell<(u32, u32)> = const { Cell::new((0, 0)) };
}

/// code of an implementation: 0 portable, 1 FMA, 2 FMA4, 3 another instruction
pub fn executed(t: &str) {
    let t = t.trim();
    let c = if t.is_empty() {
        0
    } else if ["vfmadd132s", "vfmadd213s", "vfmadd231s"].iter().any(|p| t.starts_with(p)) {
        1
    } else if t.starts_with("vfmadds") {
        2
    } else {
        3
    };
    RAN.with_borrow_mut(|r| r.push(c));
}

#[macro_export]
macro_rules! recorded_asm {
    ($t:literal, $($rest:tt)*) => { $crate::executed($t) };
}

pub mod arch {
    pub use crate::recorded_asm as asm;
    pub mod x86_64 {
        #[derive(Clone, Copy, Debug)]
        pub struct CpuidResult {
            pub eax: u32,
            pub ebx: u32,
            pub ecx: u32,
            pub edx: u32,
        }

        pub unsafe fn __cpuid_count(leaf: u32, sub: u32) -> CpuidResult {
            let k = [(0, 0), (1, 0), (7, 0), (7, 1), (0x8000_0000, 0), (0x8000_0001, 0)];
            match k.iter().position(|x| *x == (leaf, sub)) {
                Some(k) => crate::ENV.with_borrow(|e| CpuidResult {
                    eax: e[4 * k] as u32,
                    ebx: e[4 * k + 1] as u32,
                    ecx: e[4 * k + 2] as u32,
                    edx: e[4 * k + 3] as u32,
                }),
                None => CpuidResult { eax: 0, ebx: 0, ecx: 0, edx: 0 },
            }
        }

        pub unsafe fn __cpuid(leaf: u32) -> CpuidResult {
            unsafe { __cpuid_count(leaf, 0) }
        }

        pub unsafe fn _xgetbv(_: u32) -> u64 {
            crate::ENV.with_borrow(|e| {
                if e[0] < 1 || e[6] >> 27 & 1 == 0 {
                    crate::executed("xgetbv");
                }
                e[24]
            })
        }
    }
}

pub mod sync {
    pub mod atomic {
        pub use std::sync::atomic::Ordering;
        use std::cell::Cell;

        /// a location that starts anew with every run
        pub struct Shared<T: Copy + 'static> {
            init: T,
            cur: Cell<(u32, Option<T>)>,
        }

        unsafe impl<T: Copy> Sync for Shared<T> {}

        impl<T: Copy + PartialEq> Shared<T> {
            pub const fn new(init: T) -> Self {
                Self { init, cur: Cell::new((0, None)) }
            }
            fn get(&self) -> T {
                crate::step();
                match self.cur.get() {
                    (g, Some(v)) if g == crate::GEN.get() => v,
                    _ => self.init,
                }
            }
            fn set(&self, v: T) {
                self.cur.set((crate::GEN.get(), Some(v)));
            }
            pub fn load(&self, _: Ordering) -> T {
                self.get()
            }
            pub fn store(&self, v: T, _: Ordering) {
                crate::step();
                self.set(v);
            }
            pub fn swap(&self, v: T, _: Ordering) -> T {
                let o = self.get();
                self.set(v);
                o
            }
            pub fn compare_exchange(&self, a: T, b: T, _: Ordering, _: Ordering) -> Result<T, T> {
                let o = self.get();
                if o == a {
                    self.set(b);
                    Ok(o)
                } else {
                    Err(o)
                }
            }
            pub fn compare_exchange_weak(&self, a: T, b: T, s: Ordering, f: Ordering) -> Result<T, T> {
                self.compare_exchange(a, b, s, f)
            }
        }

        impl Shared<u32> {
            pub fn fetch_or(&self, v: u32, _: Ordering) -> u32 {
                let o = self.get();
                self.set(o | v);
                o
            }
            pub fn fetch_and(&self, v: u32, _: Ordering) -> u32 {
                let o = self.get();
                self.set(o & v);
                o
            }
        }

        pub type AtomicU32 = Shared<u32>;
        pub type AtomicPtr<T> = Shared<*mut T>;
    }
}

/// before an access to a shared location: another thread may run
fn step() {
    OPS.set(OPS.get() + 1);
    let (at, what) = AT.get();
    if OPS.get() == at {
        AT.set((0, 0));
        call(what);
    }
}

mod math;
mod support;

fn call(what: u32) {
    if what == 0 {
        math::arch::x86::fma::fma(1.0, 1.0, 1.0);
    } else {
        math::arch::x86::fma::fmaf(1.0, 1.0, 1.0);
    }
}

/// codes of the implementations executed by two calls of one function and one of the other, with
/// a further call in the place of the `at`-th access to a shared location
pub fn run(env: &[u64], at: u32, what: u32, first: u32) -> Vec<u8> {
    GEN.set(GEN.get() + 1);
    OPS.set(0);
    AT.set((at, what));
    ENV.set(env.to_vec());
    RAN.set(Vec::new());
    call(first);
    call(first);
    call(1 - first);
    call(1 - first);
    RAN.take()
}
