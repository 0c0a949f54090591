//! Tracked value types of many sizes and alignments. Each knows its own name
//! (as far as its size allows), checks its own bytes and address whenever it is
//! looked at or dropped, and reports to the registry.

use crate::{heap, reg, rng::mix};

pub trait Tok: 'static + Sized {
    const CLS: u16;
    const BITS: u32;
    fn fresh() -> Self;
    /// Checks the bytes and the address; returns the id.
    fn id(&self) -> u64;
}

fn pat(cls: u16, id: u64, i: usize) -> u8 {
    if cfg!(miri) {
        // Miri sees every access by itself
        return (id ^ u64::from(cls)) as u8;
    }
    (mix(id ^ (u64::from(cls) << 48) ^ ((i as u64) << 20)) >> 24) as u8
}

macro_rules! toks {
    ($($name:ident, $cls:literal, $size:literal, $align:literal;)*) => {$(
        #[repr(C, align($align))]
        pub struct $name { b: [u8; $size] }
        impl Tok for $name {
            const CLS: u16 = $cls;
            const BITS: u32 = if $size * 8 > 64 { 64 } else { $size * 8 };
            fn fresh() -> Self {
                let id = reg::born($cls, Self::BITS);
                $name::with_id(id)
            }
            #[inline(never)]
            fn id(&self) -> u64 {
                let addr = std::ptr::from_ref(self).addr();
                if addr % $align != 0 {
                    viol!("misaligned reference: class {} at {addr:#x}, needs {}", $cls, $align);
                }
                let mut id = 0u64;
                let k: usize = if $size < 8 { $size } else { 8 };
                for i in 0..k { id |= u64::from(self.b[i]) << (8 * i); }
                // the body of very large values is sampled
                let step = if cfg!(miri) { 1 + $size / 4 } else if $size > 512 { 61 } else { 1 };
                let mut i = k;
                while i < $size {
                    if self.b[i] != pat($cls, id, i) {
                        viol!("corrupted element: class {} id {id:#x} byte {i} is {:#x}", $cls, self.b[i]);
                        break;
                    }
                    i += step;
                }
                id
            }
        }
        impl $name {
            #[allow(unused)]
            fn with_id(id: u64) -> Self {
                let mut b = if cfg!(miri) { [pat($cls, id, 0); $size] } else { [0u8; $size] };
                let k: usize = if $size < 8 { $size } else { 8 };
                for i in 0..k { b[i] = (id >> (8 * i)) as u8; }
                for i in if cfg!(miri) { $size } else { k }..$size { b[i] = pat($cls, id, i); }
                $name { b }
            }
        }
        impl Drop for $name {
            fn drop(&mut self) {
                let id = self.id();
                reg::dead($cls, id);
                reg::event(reg::EV_DROP);
            }
        }
        impl Clone for $name {
            fn clone(&self) -> Self {
                let old = self.id();
                reg::seen($cls, old);
                reg::event(reg::EV_CLONE);
                if Self::BITS >= 24 {
                    let new = Self::fresh();
                    let v = reg::val_of(old);
                    reg::set_val(new.id(), v);
                    new
                } else {
                    // too small for an identity of its own: same name, one more of them
                    reg::born_same($cls, old);
                    $name::with_id(old)
                }
            }
        }
    )*};
}

toks! {
    Z1, 1, 0, 1;
    Z16, 2, 0, 16;
    Z128, 3, 0, 128;
    B1, 4, 1, 1;
    B3, 5, 3, 1;
    W2, 6, 2, 2;
    W6, 7, 6, 2;
    D4, 8, 4, 4;
    D12, 9, 12, 4;
    Q8, 10, 8, 8;
    Q24, 11, 24, 8;
    X16, 12, 16, 16;
    X48, 13, 48, 16;
    Y32, 14, 32, 32;
    L64, 15, 64, 64;
    P192, 16, 192, 64;
    K256, 17, 256, 256;
    G4096, 18, 4096, 4096;
    B37, 19, 37, 1;
}

/// A value that owns heap memory.
#[repr(C, align(8))]
pub struct Hb {
    p: Box<u64>,
}
impl Tok for Hb {
    const CLS: u16 = 20;
    const BITS: u32 = 64;
    fn fresh() -> Self {
        let id = reg::born(Self::CLS, 64);
        Hb { p: heap::elem(|| Box::new(id)) }
    }
    fn id(&self) -> u64 {
        let addr = std::ptr::from_ref(self).addr();
        if addr % 8 != 0 {
            viol!("misaligned reference: class 20 at {addr:#x}");
            return 0;
        }
        // SAFETY: plain read of the pointer field
        let p = unsafe { *(std::ptr::from_ref(self).cast::<usize>()) };
        match heap::block_of(p) {
            Some((base, b)) if base == p && b.size == 8 => *self.p,
            _ => {
                viol!("corrupted element: class 20 holds {p:#x}, not a live block");
                0
            }
        }
    }
}
impl Drop for Hb {
    fn drop(&mut self) {
        let id = self.id();
        reg::dead(Self::CLS, id);
        if reg::has_viol() {
            // Do not touch memory we cannot trust: leak the (dangling) pointer.
            let b = std::mem::replace(&mut self.p, heap::elem(|| Box::new(0)));
            std::mem::forget(b);
        }
        reg::event(reg::EV_DROP);
    }
}
impl Clone for Hb {
    fn clone(&self) -> Self {
        let old = self.id();
        reg::seen(Self::CLS, old);
        reg::event(reg::EV_CLONE);
        let new = Self::fresh();
        let v = reg::val_of(old);
        reg::set_val(new.id(), v);
        new
    }
}

/// Value (shared by clones) of a token.
pub fn value<T: Tok>(t: &T) -> u64 {
    let id = t.id();
    reg::seen(T::CLS, id);
    if T::BITS >= 24 {
        reg::val_of(id)
    } else {
        id
    }
}
