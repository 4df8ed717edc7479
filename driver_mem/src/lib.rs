//! The memory routines as targets without unaligned word reads compile them: the repository's own
//! source file, built without the `mem_unaligned` setting.
#![no_std]
#![no_builtins]
#![allow(dead_code, unsafe_op_in_unsafe_fn, clippy::missing_safety_doc, unexpected_cfgs)]

mod support {
    pub fn cold_path() {}
}

#[path = "../../../repo/compiler-builtins/src/mem/impls.rs"]
mod impls;

#[unsafe(no_mangle)]
pub unsafe fn aligned_memcpy(dest: *mut u8, src: *const u8, n: usize) -> *mut u8 {
    impls::copy_forward(dest, src, n);
    dest
}

/// the choice of direction is the one under contract in `memmove`
#[unsafe(no_mangle)]
pub unsafe fn aligned_memmove(dest: *mut u8, src: *const u8, n: usize) -> *mut u8 {
    if (dest as usize).wrapping_sub(src as usize) >= n {
        impls::copy_forward(dest, src, n);
    } else {
        impls::copy_backward(dest, src, n);
    }
    dest
}
