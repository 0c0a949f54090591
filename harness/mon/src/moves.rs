//! Counts the bytes copied by `memcpy` and `memmove` in the whole process.
//! Not with the address sanitizer, which wants to see those calls itself.
use std::cell::UnsafeCell;

struct N(UnsafeCell<u64>);
// SAFETY: the worker is single-threaded
unsafe impl Sync for N {}
static MOVED: N = N(UnsafeCell::new(0));

pub const COUNTED: bool = cfg!(all(target_arch = "x86_64", not(asan), not(miri)));

pub fn moved() -> u64 {
    // SAFETY: single thread
    unsafe { MOVED.0.get().read_volatile() }
}

#[cfg(all(target_arch = "x86_64", not(asan), not(miri)))]
mod hooks {
    use super::MOVED;
    use std::arch::asm;

    #[no_mangle]
    unsafe extern "C" fn memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
        unsafe {
            *MOVED.0.get() = (*MOVED.0.get()).wrapping_add(n as u64);
            asm!("rep movsb", inout("rcx") n => _, inout("rdi") d => _, inout("rsi") s => _, options(nostack, preserves_flags));
        }
        d
    }

    #[no_mangle]
    unsafe extern "C" fn memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
        unsafe {
            *MOVED.0.get() = (*MOVED.0.get()).wrapping_add(n as u64);
            if (d as usize).wrapping_sub(s as usize) >= n {
                asm!("rep movsb", inout("rcx") n => _, inout("rdi") d => _, inout("rsi") s => _, options(nostack, preserves_flags));
            } else {
                asm!("std", "rep movsb", "cld", inout("rcx") n => _,
                    inout("rdi") (d as usize).wrapping_add(n).wrapping_sub(1) => _,
                    inout("rsi") (s as usize).wrapping_add(n).wrapping_sub(1) => _, options(nostack));
            }
        }
        d
    }
}
