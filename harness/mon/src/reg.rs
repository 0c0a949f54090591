//! The ownership registry: which tracked values exist, and the fuse that makes
//! user code panic on demand. Every tracked value reports its birth, each
//! observation and its destruction here.

use crate::heap;
use std::cell::UnsafeCell;
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

/// Cheap, and good enough for names that were mixed already.
#[derive(Default)]
pub struct Quick(u64);
impl Hasher for Quick {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 32)
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(u64::from(*x));
        }
    }
    fn write_u16(&mut self, x: u16) {
        self.write_u64(u64::from(x));
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0 ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(23);
    }
}
type Map<K, V> = HashMap<K, V, BuildHasherDefault<Quick>>;

#[derive(Default)]
pub struct Reg {
    next: u64,
    /// (class, id) -> number of live values with that name (ids are unique unless the type is too small).
    live: Map<(u16, u64), i64>,
    /// Value of an id (clones share the value of their original).
    vals: Map<u64, u64>,
    pub live_total: i64,
    pub born_total: u64,
    pub dropped_total: u64,
    pub observed_total: u64,
    viol: Option<String>,
}

struct Cell1(UnsafeCell<Option<Reg>>);
// SAFETY: the worker is single-threaded.
unsafe impl Sync for Cell1 {}
static REG: Cell1 = Cell1(UnsafeCell::new(None));

#[allow(clippy::mut_from_ref)]
fn with<R>(f: impl FnOnce(&mut Reg) -> R) -> R {
    heap::own(|| {
        // SAFETY: single thread, `f` never re-enters.
        let r = unsafe { &mut *REG.0.get() };
        f(r.get_or_insert_with(Reg::default))
    })
}

pub fn reset() {
    with(|r| *r = Reg::default());
    fuse_off();
}

pub fn viol(msg: String) {
    with(|r| {
        if r.viol.is_none() {
            r.viol = Some(msg);
        }
    });
}
pub fn viol_str(msg: &str) {
    let m = heap::own(|| msg.to_string());
    viol(m);
}
#[macro_export]
macro_rules! viol {
    ($($a:tt)*) => { $crate::reg::viol($crate::heap::own(|| format!($($a)*))) };
}
pub fn take_viol() -> Option<String> {
    with(|r| r.viol.take())
}
pub fn has_viol() -> bool {
    with(|r| r.viol.is_some())
}

/// A fresh name for a value with room for `bits` bits of identity.
pub fn born(cls: u16, bits: u32) -> u64 {
    with(|r| {
        r.next += 1;
        let id = if bits >= 64 {
            r.next
        } else if bits == 0 {
            0
        } else {
            (r.next.wrapping_mul(0x9E37_79B1) >> 3) & ((1u64 << bits) - 1)
        };
        // types with room for a unique id get one
        let id = if (24..64).contains(&bits) { r.next } else { id };
        *r.live.entry((cls, id)).or_insert(0) += 1;
        r.live_total += 1;
        r.born_total += 1;
        id
    })
}

pub fn dead(cls: u16, id: u64) {
    with(|r| {
        r.dropped_total += 1;
        let n = r.live.get(&(cls, id)).copied().unwrap_or(0);
        if n <= 0 {
            if r.viol.is_none() {
                r.viol = Some(format!("ownership: destructor ran on a value that is not alive (class {cls}, id {id})"));
            }
        } else {
            if n == 1 {
                r.live.remove(&(cls, id));
            } else {
                r.live.insert((cls, id), n - 1);
            }
            r.live_total -= 1;
        }
    });
}

/// Called when a value is looked at through a reference.
pub fn seen(cls: u16, id: u64) {
    with(|r| {
        r.observed_total += 1;
        if r.live.get(&(cls, id)).copied().unwrap_or(0) <= 0 && r.viol.is_none() {
            r.viol = Some(format!("a reachable element is not a live value (class {cls}, id {id}): dropped, uninitialised or overwritten"));
        }
    });
}

pub fn is_live(cls: u16, id: u64) -> bool {
    with(|r| r.live.get(&(cls, id)).copied().unwrap_or(0) > 0)
}
pub fn live_total() -> i64 {
    with(|r| r.live_total)
}
pub fn totals() -> (u64, u64, u64) {
    with(|r| (r.born_total, r.dropped_total, r.observed_total))
}
pub fn set_val(id: u64, val: u64) {
    with(|r| {
        r.vals.insert(id, val);
    });
}
pub fn val_of(id: u64) -> u64 {
    with(|r| r.vals.get(&id).copied().unwrap_or(id))
}

// ---------------------------------------------------------------- fuse

/// Kinds of user-code events at which a panic can be injected.
pub const EV_DROP: u32 = 1;
pub const EV_CLONE: u32 = 2;
pub const EV_CLOSURE_BEFORE: u32 = 4;
pub const EV_CLOSURE_INSIDE: u32 = 8;
pub const EV_CLOSURE_AFTER: u32 = 16;
pub const EV_EMPLACER: u32 = 32;
pub const EV_ITER: u32 = 64;
pub const EV_BODY: u32 = 128;

pub struct Injected;

struct Fuse(UnsafeCell<(i64, u32, u32)>);
// SAFETY: the worker is single-threaded.
unsafe impl Sync for Fuse {}
/// (remaining events, mask, kind that fired)
static FUSE: Fuse = Fuse(UnsafeCell::new((0, 0, 0)));

/// The `n`-th (from 1) event whose kind is in `mask` panics.
pub fn fuse_set(n: i64, mask: u32) {
    // SAFETY: single thread
    unsafe { *FUSE.0.get() = (n, mask, 0) };
}
pub fn fuse_off() {
    // SAFETY: single thread
    unsafe { *FUSE.0.get() = (0, 0, 0) };
}
/// The kind of event that fired, 0 if none.
pub fn fuse_fired() -> u32 {
    // SAFETY: single thread
    unsafe { (*FUSE.0.get()).2 }
}
pub fn event(kind: u32) {
    // SAFETY: single thread
    let f = unsafe { &mut *FUSE.0.get() };
    if f.0 > 0 && f.1 & kind != 0 && !std::thread::panicking() {
        f.0 -= 1;
        if f.0 == 0 {
            f.2 = kind;
            let payload: Box<dyn std::any::Any + Send> = heap::own(|| Box::new(Injected) as _);
            std::panic::resume_unwind(payload);
        }
    }
}

/// One more live value with the same name (clones of values too small to be told apart).
pub fn born_same(cls: u16, id: u64) {
    with(|r| {
        r.next += 1;
        *r.live.entry((cls, id)).or_insert(0) += 1;
        r.live_total += 1;
        r.born_total += 1;
    });
}
