//! What a case reports to: log, counters, fingerprints, the first violation.

use crate::heap::{self, own};
use crate::reg;
use crate::rng::{mix, Rng};
use std::cell::UnsafeCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Which monitor raised an alarm.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tag {
    /// contents differ from the list model
    Model,
    /// the bytes of an element are not those of any value
    Bytes,
    /// ownership registry: dropped twice, never, or reachable though dead
    Own,
    /// heap monitor: wrong release, write outside a block, leak, use after release
    Heap,
    /// misaligned reference or wrong reported alignment
    Align,
    /// capacity contract
    Cap,
    /// documented layout, overlap, block count
    Layout,
    /// panic where none is documented, or none where one is
    Panic,
    /// iterator disagrees with the slice iterator
    Iter,
    /// comparison, hash, debug, serialisation, clone
    Trait,
    /// cost: allocator calls or bytes moved
    Cost,
    /// value delivered by an emplacable
    Value,
    /// layout or metadata announced to an emplacer
    Announce,
}

#[derive(Default)]
pub struct Ctx {
    pub log_on: bool,
    /// keep the log of this case as a sample
    pub sampling: bool,
    pub log: Vec<String>,
    pub viol: Option<(Tag, String)>,
    /// set when the state cannot be trusted any more
    pub prints: HashSet<u64>,
    pub case_prints: u64,
    pub counters: BTreeMap<&'static str, u64>,
    pub panic_msg: Option<String>,
    pub samples: Vec<String>,
}
struct C(UnsafeCell<Option<Ctx>>);
// SAFETY: single-threaded worker
unsafe impl Sync for C {}
static CTX: C = C(UnsafeCell::new(None));

#[allow(clippy::mut_from_ref)]
pub fn ctx<R>(f: impl FnOnce(&mut Ctx) -> R) -> R {
    own(|| {
        // SAFETY: single thread, `f` does not re-enter
        let c = unsafe { &mut *CTX.0.get() };
        f(c.get_or_insert_with(Ctx::default))
    })
}

pub fn fail_str(tag: Tag, msg: String) {
    ctx(|c| {
        if c.viol.is_none() {
            c.viol = Some((tag, msg));
        }
    });
}
#[macro_export]
macro_rules! fail {
    ($tag:ident, $($a:tt)*) => { $crate::ctx::fail_str($crate::ctx::Tag::$tag, $crate::heap::own(|| format!($($a)*))) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $tag:ident, $($a:tt)*) => { if !$c { $crate::fail!($tag, $($a)*); } };
}
#[macro_export]
macro_rules! logf {
    ($($a:tt)*) => { if $crate::ctx::log_on() { $crate::ctx::log($crate::heap::own(|| format!($($a)*))) } };
}
pub fn log_on() -> bool {
    ctx(|c| c.log_on || c.sampling)
}
pub fn log(mut s: String) {
    if let Some((k, _)) = s.char_indices().nth(600) {
        s.truncate(k);
        s.push_str("...");
    }
    ctx(|c| {
        if c.log_on {
            // unbuffered, so that a crash leaves the history behind
            eprintln!("  {s}");
        } else if c.log.len() < 60 {
            c.log.push(s);
        }
    });
}
pub fn failed() -> bool {
    ctx(|c| c.viol.is_some())
}
pub fn count(what: &'static str, n: u64) {
    ctx(|c| *c.counters.entry(what).or_insert(0) += n);
}
pub fn print(h: u64) {
    ctx(|c| {
        if c.prints.len() < 400_000 {
            c.prints.insert(h);
        }
        c.case_prints = mix(c.case_prints ^ h);
    });
}
pub fn hash_all(xs: &[u64]) -> u64 {
    let mut h = 0x1234_5678u64;
    for &x in xs {
        h = mix(h ^ x);
    }
    h
}

/// Moves alarms of the low-level monitors into the context.
pub fn poll() {
    if let Some(m) = reg::take_viol() {
        let tag = if m.starts_with("misaligned") {
            Tag::Align
        } else if m.starts_with("ownership") || m.starts_with("a reachable") {
            Tag::Own
        } else if ["corrupted", "an element claims", "a str element", "a CStr element", "a trait object", "a tail object"].iter().any(|s| m.starts_with(s)) {
            Tag::Bytes
        } else {
            Tag::Model
        };
        fail_str(tag, m);
    }
    if let Some(v) = heap::take_viol() {
        fail!(Heap, "{}: {:#x} [{:#x} {:#x} {:#x} {:#x}]", v.what, v.addr, v.a, v.b, v.c, v.d);
    }
}

#[derive(Debug)]
pub enum Caught {
    /// the panic the harness injected
    Injected,
    /// an allocation failure reported by the alloc error hook
    Alloc,
    Other(String),
}

pub struct AllocFailed;

/// Runs `f`, turning a panic into a value.
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, Caught> {
    ctx(|c| c.panic_msg = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(p) => {
            let c = if p.is::<reg::Injected>() {
                Caught::Injected
            } else if p.is::<AllocFailed>() {
                Caught::Alloc
            } else {
                own(|| Caught::Other(ctx(|c| c.panic_msg.take()).unwrap_or_else(|| "a panic".into())))
            };
            drop(p);
            Err(c)
        }
    }
}

/// Runs an operation that must not panic.
pub fn calm<R>(what: &str, f: impl FnOnce() -> R) -> Option<R> {
    match catch(f) {
        Ok(r) => Some(r),
        Err(e) => {
            fail!(Panic, "{what}: unexpected panic: {e:?}");
            None
        }
    }
}

pub fn install_hooks() {
    std::panic::set_hook(Box::new(|info| {
        // the panic machinery itself must be able to allocate
        heap::fail_off();
        let m = own(|| format!("{info}"));
        ctx(|c| {
            if c.log_on {
                eprintln!("  panic: {m}");
            }
            c.panic_msg = Some(m);
        });
    }));
    std::alloc::set_alloc_error_hook(|_| {
        heap::fail_off();
        let p: Box<dyn std::any::Any + Send> = own(|| Box::new(AllocFailed) as _);
        std::panic::resume_unwind(p);
    });
}

/// End-of-case accounting shared by all scenarios: everything the case made must be gone.
pub fn expect_clean(since: u64, leaks_allowed: bool) {
    poll();
    if failed() {
        return;
    }
    if !leaks_allowed {
        let n = reg::live_total();
        ensure!(n == 0, Own, "{n} values were never dropped");
        let l = heap::live_since(since);
        if let Some((p, b)) = l.first() {
            fail!(Heap, "{} blocks leaked, first {p:#x} size {} align {} ({:?})", l.len(), b.size, b.align, b.who);
        }
    }
    heap::flush_quarantine();
    poll();
}

/// As many items of a type as can be passed around by value: the stack holds a few copies.
pub fn fit<T>(n: usize) -> usize {
    n.min((320 << 10) / size_of::<T>().max(1))
}
pub fn size_class(n: usize) -> u64 {
    if n < 8 {
        n as u64
    } else {
        8 + u64::from(usize::BITS - n.leading_zeros())
    }
}
#[allow(unused)]
pub fn rng_for(seed: u64) -> Rng {
    Rng::new(seed)
}
