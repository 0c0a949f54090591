//! The heap monitor: a global allocator that knows every live block.
//!
//! It checks that every block is released exactly once with the layout it was
//! allocated with, surrounds blocks with red zones, fills fresh memory with
//! 0xA5 and released memory with 0xDD (kept in a quarantine for a while, then
//! checked), always moves blocks that are resized, counts calls, attributes
//! blocks to who asked for them, and can refuse allocations on demand.
//!
//! Under AddressSanitizer (`--cfg asan`) red zones and quarantine are left to
//! the sanitizer, and under Miri fresh memory stays uninitialised as well.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, Ordering};

/// Who asked for a block.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u8)]
pub enum Who {
    Harness = 0,
    /// Code under test.
    Sut = 1,
    /// Memory owned by an element or by a box the harness built for the code under test.
    Elem = 2,
}

#[derive(Clone, Copy)]
pub struct Blk {
    pub size: usize,
    pub align: usize,
    pub who: Who,
    pub seq: u64,
    raw: usize,
    raw_size: usize,
    raw_align: usize,
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Counts {
    pub allocs: u64,
    pub reallocs: u64,
    pub deallocs: u64,
    pub bytes_moved: u64,
    pub bytes_requested: u64,
    pub refused: u64,
}

#[derive(Clone, Copy)]
pub struct HeapViol {
    pub what: &'static str,
    pub addr: usize,
    pub a: usize,
    pub b: usize,
    pub c: usize,
    pub d: usize,
}

/// Where the live blocks are kept.
#[cfg(not(miri))]
mod table {
    use super::{Blk, System};
    use std::collections::BTreeMap;
    pub struct Table(BTreeMap<usize, Blk, System>);
    impl Table {
        pub const fn new() -> Self {
            Table(BTreeMap::new_in(System))
        }
        pub fn insert(&mut self, p: usize, b: Blk) {
            self.0.insert(p, b);
        }
        pub fn remove(&mut self, p: usize) -> Option<Blk> {
            self.0.remove(&p)
        }
        pub fn get(&self, p: usize) -> Option<Blk> {
            self.0.get(&p).copied()
        }
        /// The last block that starts at or before `p`.
        pub fn at_or_before(&self, p: usize) -> Option<(usize, Blk)> {
            self.0.range(..=p).next_back().map(|(p, b)| (*p, *b))
        }
        pub fn each(&self, mut f: impl FnMut(usize, &Blk)) {
            self.0.iter().for_each(|(p, b)| f(*p, b));
        }
        /// Takes all blocks out.
        pub fn drain(&mut self, mut f: impl FnMut(usize, Blk)) {
            std::mem::replace(&mut self.0, BTreeMap::new_in(System)).into_iter().for_each(|(p, b)| f(p, b));
        }
    }
}
/// For the interpreter, which needs a thousand times as long for everything:
/// a list with as little code to interpret as possible, for the monitored
/// blocks only (the interpreter watches all blocks anyway).
#[cfg(miri)]
mod table {
    use super::{Blk, Who};
    const N: usize = 4096;
    const NONE: Blk = Blk { size: 0, align: 0, who: Who::Harness, seq: 0, raw: 0, raw_size: 0, raw_align: 0 };
    pub struct Table {
        keys: [usize; N],
        blks: [Blk; N],
        n: usize,
    }
    impl Table {
        pub const fn new() -> Self {
            Table { keys: [0; N], blks: [NONE; N], n: 0 }
        }
        fn slot(&self, p: usize) -> usize {
            // what was allocated last is looked for most
            let mut i = self.n;
            while i > 0 {
                i -= 1;
                if self.keys[i] == p {
                    return i;
                }
            }
            N
        }
        pub fn insert(&mut self, p: usize, b: Blk) {
            self.keys[self.n] = p;
            self.blks[self.n] = b;
            self.n += 1;
        }
        pub fn remove(&mut self, p: usize) -> Option<Blk> {
            let i = self.slot(p);
            if i == N {
                return None;
            }
            let b = self.blks[i];
            self.n -= 1;
            self.keys[i] = self.keys[self.n];
            self.blks[i] = self.blks[self.n];
            Some(b)
        }
        pub fn get(&self, p: usize) -> Option<Blk> {
            let i = self.slot(p);
            if i < N { Some(self.blks[i]) } else { None }
        }
        pub fn at_or_before(&self, p: usize) -> Option<(usize, Blk)> {
            let (mut best, mut i, mut at) = (0, 0, N);
            while i < self.n {
                let k = self.keys[i];
                if k <= p && k > best {
                    best = k;
                    at = i;
                }
                i += 1;
            }
            if at < N { Some((best, self.blks[at])) } else { None }
        }
        pub fn each(&self, mut f: impl FnMut(usize, &Blk)) {
            let mut i = 0;
            while i < self.n {
                f(self.keys[i], &self.blks[i]);
                i += 1;
            }
        }
        pub fn drain(&mut self, mut f: impl FnMut(usize, Blk)) {
            let mut i = 0;
            while i < self.n {
                f(self.keys[i], self.blks[i]);
                i += 1;
            }
            self.n = 0;
        }
    }
}
use table::Table;

struct State {
    /// [harness blocks, monitored blocks]
    table: [Table; 2],
    who: Who,
    seq: u64,
    sut: Counts,
    viol: Option<HeapViol>,
    // fault injection: refuse the n-th SUT allocation (0 = off), optionally all later ones too
    fail_at: u64,
    fail_persist: bool,
    fail_min_size: usize,
    quarantine: [(usize, usize, usize, usize); QN],
    qpos: usize,
    live: [usize; 3],
    /// larger requests are refused
    limit: usize,
}

const LIMIT: usize = 1 << 26;
const QN: usize = 48;
const RZ: usize = if cfg!(any(asan, miri)) { 0 } else { 64 };
const RZ_BYTE: u8 = 0xFB;
pub const FRESH: u8 = 0xA5;
pub const FREED: u8 = 0xDD;

static LOCK: AtomicBool = AtomicBool::new(false);
static mut ST: State = State {
    table: [Table::new(), Table::new()],
    who: Who::Harness,
    seq: 0,
    sut: Counts { allocs: 0, reallocs: 0, deallocs: 0, bytes_moved: 0, bytes_requested: 0, refused: 0 },
    viol: None,
    fail_at: 0,
    fail_persist: false,
    fail_min_size: 0,
    quarantine: [(0, 0, 0, 0); QN],
    qpos: 0,
    live: [0; 3],
    limit: LIMIT,
};

fn locked<R>(f: impl FnOnce(&mut State) -> R) -> R {
    if cfg!(miri) {
        // SAFETY: there is one thread only, and `f` never re-enters the global allocator.
        return f(unsafe { &mut *(&raw mut ST) });
    }
    while LOCK.compare_exchange_weak(false, true, Ordering::Acquire, Ordering::Relaxed).is_err() {
        std::hint::spin_loop();
    }
    // SAFETY: the lock is held; `f` never re-enters the global allocator (the table uses `System`).
    let r = f(unsafe { &mut *(&raw mut ST) });
    LOCK.store(false, Ordering::Release);
    r
}

pub struct Mon;

/// Distance from the start of the underlying block. Blocks are placed at the
/// least aligned address that their layout permits, so that nothing works by luck.
fn front_of(align: usize) -> usize {
    if RZ == 0 {
        0
    } else {
        RZ.next_multiple_of(2 * align) + align
    }
}

fn note(s: &mut State, what: &'static str, addr: usize, a: usize, b: usize, c: usize, d: usize) {
    if s.viol.is_none() {
        s.viol = Some(HeapViol { what, addr, a, b, c, d });
    }
}

unsafe fn do_alloc(s: &mut State, size: usize, align: usize, who: Who) -> *mut u8 {
    if !align.is_power_of_two() || Layout::from_size_align(size, align).is_err() {
        note(s, "a request for an invalid layout", 0, size, align, 0, 0);
        return std::ptr::null_mut();
    }
    if align > (1 << 24) || size > s.limit {
        // could never be served by a real machine
        return std::ptr::null_mut();
    }
    let front = front_of(align);
    let ral = if RZ == 0 { align } else { 2 * align };
    let Some(raw_size) = size.checked_add(front).and_then(|x| x.checked_add(RZ)) else {
        return std::ptr::null_mut();
    };
    let Ok(rl) = Layout::from_size_align(raw_size, ral) else {
        return std::ptr::null_mut();
    };
    // Requests that could never be served by a real machine are refused outright,
    // so that nothing here depends on overcommit.
    if raw_size > (1 << 27) {
        return std::ptr::null_mut();
    }
    let raw = unsafe { System.alloc(rl) };
    if raw.is_null() {
        return raw;
    }
    let p = unsafe { raw.add(front) };
    unsafe {
        if RZ > 0 {
            // only the RZ bytes next to the block are guarded
            std::ptr::write_bytes(p.sub(RZ), RZ_BYTE, RZ);
            std::ptr::write_bytes(p.add(size), RZ_BYTE, RZ);
        }
        if !cfg!(miri) {
            std::ptr::write_bytes(p, FRESH, size);
        }
    }
    s.seq += 1;
    let blk = Blk { size, align, who, seq: s.seq, raw: raw.addr(), raw_size, raw_align: ral };
    s.live[who as usize] += 1;
    let t = usize::from(who != Who::Harness);
    if t == 1 || !cfg!(miri) {
        s.table[t].insert(p.addr(), blk);
    }
    p
}

unsafe fn zones_ok(p: usize, size: usize) -> Result<(), usize> {
    if RZ == 0 {
        return Ok(());
    }
    unsafe {
        for i in 1..=RZ {
            if *((p - i) as *const u8) != RZ_BYTE {
                return Err(p - i);
            }
        }
        for i in 0..RZ {
            if *((p + size + i) as *const u8) != RZ_BYTE {
                return Err(p + size + i);
            }
        }
    }
    Ok(())
}

unsafe fn do_dealloc(s: &mut State, ptr: *mut u8, size: usize, align: usize) {
    let p = ptr.addr();
    let [t0, t1] = &mut s.table;
    let found = match t1.remove(p) {
        None if cfg!(miri) => {
            s.live[0] -= 1;
            unsafe { System.dealloc(ptr, Layout::from_size_align_unchecked(size, align)) };
            return;
        }
        None => t0.remove(p),
        some => some,
    };
    let Some(blk) = found else {
        note(s, "release of a pointer that is not a live block", p, size, align, 0, 0);
        return;
    };
    s.live[blk.who as usize] -= 1;
    if blk.size != size || blk.align != align {
        note(s, "block released with another layout (addr, alloc size/align, release size/align)", p, blk.size, blk.align, size, align);
    }
    unsafe {
        if let Err(a) = zones_ok(p, blk.size) {
            note(s, "write outside a block (block, size, address written)", p, blk.size, a, 0, 0);
        }
        if RZ == 0 {
            System.dealloc(ptr, Layout::from_size_align_unchecked(blk.raw_size, blk.raw_align));
            return;
        }
        std::ptr::write_bytes(ptr, FREED, blk.size);
        let slot = s.qpos % QN;
        s.qpos += 1;
        let (op, osz, oraw_size, oalign) = s.quarantine[slot];
        s.quarantine[slot] = (p, blk.size, blk.raw_size, blk.raw_align);
        if op != 0 {
            evict(s, op, osz, oraw_size, oalign);
        }
    }
}

unsafe fn evict(s: &mut State, p: usize, size: usize, raw_size: usize, align: usize) {
    unsafe {
        for i in 0..size {
            if *((p + i) as *const u8) != FREED {
                note(s, "write to a released block (block, size, offset)", p, size, i, 0, 0);
                break;
            }
        }
        // the quarantine remembers the alignment of the underlying block
        let front = front_of(align / 2);
        System.dealloc((p - front) as *mut u8, Layout::from_size_align_unchecked(raw_size, align));
    }
}

fn refused(s: &mut State, size: usize) -> bool {
    if s.who != Who::Sut || s.fail_at == 0 || size < s.fail_min_size {
        return false;
    }
    s.fail_at -= 1;
    if s.fail_at == 0 {
        if s.fail_persist {
            s.fail_at = 1;
        }
        s.sut.refused += 1;
        return true;
    }
    false
}

unsafe impl GlobalAlloc for Mon {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        locked(|s| unsafe {
            if layout.size() == 0 {
                note(s, "zero-sized allocation request", 0, 0, layout.align(), 0, 0);
                return std::ptr::null_mut();
            }
            if refused(s, layout.size()) {
                return std::ptr::null_mut();
            }
            if s.who == Who::Sut {
                s.sut.allocs += 1;
                s.sut.bytes_requested = s.sut.bytes_requested.saturating_add(layout.size() as u64);
            }
            let who = s.who;
            do_alloc(s, layout.size(), layout.align(), who)
        })
    }

    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        locked(|s| unsafe {
            if s.who == Who::Sut {
                s.sut.deallocs += 1;
            }
            do_dealloc(s, ptr, layout.size(), layout.align());
        })
    }

    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
        locked(|s| unsafe {
            if new_size == 0 {
                note(s, "zero-sized reallocation request", ptr.addr(), layout.size(), layout.align(), 0, 0);
                return std::ptr::null_mut();
            }
            if refused(s, new_size) {
                return std::ptr::null_mut();
            }
            let k = ptr.addr();
            let found = match s.table[1].get(k) {
                None if cfg!(miri) => {
                    if s.who == Who::Sut {
                        s.sut.reallocs += 1;
                        s.sut.bytes_moved += layout.size().min(new_size) as u64;
                    }
                    return System.realloc(ptr, layout, new_size);
                }
                None => s.table[0].get(k),
                some => some,
            };
            let Some(blk) = found else {
                note(s, "resize of a pointer that is not a live block", ptr.addr(), layout.size(), layout.align(), 0, 0);
                return std::ptr::null_mut();
            };
            let who = blk.who;
            let moved = layout.size().min(new_size).min(blk.size);
            if s.who == Who::Sut {
                s.sut.reallocs += 1;
                s.sut.bytes_requested = s.sut.bytes_requested.saturating_add(new_size as u64);
                s.sut.bytes_moved += moved as u64;
            }
            let p = do_alloc(s, new_size, layout.align(), who);
            if !p.is_null() {
                std::ptr::copy_nonoverlapping(ptr, p, moved);
                do_dealloc(s, ptr, layout.size(), layout.align());
            }
            p
        })
    }
}

/// Runs `f` with allocations attributed to `who`; restores on unwind.
pub fn scope<R>(who: Who, f: impl FnOnce() -> R) -> R {
    struct G(Who);
    impl Drop for G {
        fn drop(&mut self) {
            locked(|s| s.who = self.0);
        }
    }
    let old = locked(|s| std::mem::replace(&mut s.who, who));
    let _g = G(old);
    f()
}

pub fn sut<R>(f: impl FnOnce() -> R) -> R {
    scope(Who::Sut, f)
}
pub fn own<R>(f: impl FnOnce() -> R) -> R {
    scope(Who::Harness, f)
}
pub fn elem<R>(f: impl FnOnce() -> R) -> R {
    scope(Who::Elem, f)
}

pub fn counts() -> Counts {
    locked(|s| s.sut)
}
pub fn live(who: Who) -> usize {
    locked(|s| s.live[who as usize])
}
pub fn seq() -> u64 {
    locked(|s| s.seq)
}
/// Live blocks not attributed to the harness, allocated after `seq`.
pub fn live_since(seq: u64) -> Vec<(usize, Blk)> {
    own(|| {
        let n = locked(|s| s.live[1] + s.live[2]);
        let mut v: Vec<(usize, Blk)> = Vec::with_capacity(n + 8);
        locked(|s| {
            s.table[1].each(|p, b| {
                if b.seq > seq && v.len() < v.capacity() {
                    v.push((p, *b));
                }
            });
        });
        v
    })
}
/// The live block containing `addr`, if any.
pub fn block_of(addr: usize) -> Option<(usize, Blk)> {
    locked(|s| {
        // not with iterators, for the interpreter's sake
        let inside = |t: &Table| match t.at_or_before(addr) {
            Some((p, b)) if addr < p + b.size => Some((p, b)),
            _ => None,
        };
        match inside(&s.table[1]) {
            None if !cfg!(miri) => inside(&s.table[0]),
            found => found,
        }
    })
}
/// Checks the red zones of all blocks that are not the harness's own.
pub fn verify() {
    if RZ == 0 {
        return;
    }
    locked(|s| {
        let mut bad = None;
        if s.live[1] + s.live[2] == 0 {
            return;
        }
        s.table[1].each(|p, b| {
            if let Err(a) = unsafe { zones_ok(p, b.size) } {
                bad = bad.or(Some((p, b.size, a)));
            }
        });
        if let Some((p, sz, a)) = bad {
            note(s, "write outside a block (block, size, address written)", p, sz, a, 0, 0);
        }
    });
}
/// Checks the quarantined blocks for writes after release.
pub fn flush_quarantine() {
    if RZ == 0 {
        return;
    }
    locked(|s| unsafe {
        for i in 0..QN {
            let (op, osz, orz, oal) = s.quarantine[i];
            if op != 0 {
                s.quarantine[i] = (0, 0, 0, 0);
                evict(s, op, osz, orz, oal);
            }
        }
    });
}
pub fn take_viol() -> Option<HeapViol> {
    locked(|s| s.viol.take())
}
pub fn fail_nth(n: u64, persist: bool, min_size: usize) {
    locked(|s| {
        s.fail_at = n;
        s.fail_persist = persist;
        s.fail_min_size = min_size;
    });
}
pub fn fail_off() {
    locked(|s| {
        s.fail_at = 0;
        s.fail_persist = false;
    });
}

/// Refuses requests above `n` bytes; `None` for the usual limit.
pub fn limit(n: Option<usize>) {
    locked(|s| s.limit = n.unwrap_or(LIMIT));
}

/// Forgets what finished cases left behind on purpose (forgotten values),
/// so that it weighs on no later case.
pub fn abandon() {
    locked(|s| {
        let [t0, t1] = &mut s.table;
        t1.drain(|p, mut b| {
            s.live[b.who as usize] -= 1;
            b.who = Who::Harness;
            s.live[0] += 1;
            if !cfg!(miri) {
                t0.insert(p, b);
            }
        });
    });
}
