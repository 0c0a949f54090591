//! Random histories over UnsizedVec, watched by a list model, the ownership
//! registry, the heap monitor, and capacity, alignment and layout monitors.

use crate::ctx::*;
use crate::emp::*;
use crate::heap::{self, elem, own, sut, Who};
use crate::kinds::*;
use crate::reg;
use crate::rng::Rng;
use emplacable::{box_new_with, box_pin_with, Emplacable, EmplacableFn};
use std::rc::Rc;
use std::sync::Arc;
use unsized_vec::UnsizedVec;

pub const OPS: [&str; 22] = [
    "push", "push_with", "push(special)", "insert", "insert_with", "insert(special)", "pop", "remove", "write", "reserve",
    "try_reserve", "shrink", "extend", "iterate", "renew", "swap", "out_of_range", "convert", "transfer", "drop_some",
    "reserve_align", "fill",
];
pub const PUSH: usize = 0;
pub const PUSH_WITH: usize = 1;
pub const PUSH_SP: usize = 2;
pub const INS: usize = 3;
pub const INS_WITH: usize = 4;
pub const INS_SP: usize = 5;
pub const POP: usize = 6;
pub const REMOVE: usize = 7;
pub const WRITE: usize = 8;
pub const RESERVE: usize = 9;
pub const TRY_RESERVE: usize = 10;
pub const SHRINK: usize = 11;
pub const EXTEND: usize = 12;
pub const ITER: usize = 13;
pub const RENEW: usize = 14;
pub const SWAP: usize = 15;
pub const OOR: usize = 16;
pub const CONVERT: usize = 17;
pub const TRANSFER: usize = 18;
pub const DROP_SOME: usize = 19;
pub const RES_ALIGN: usize = 20;
pub const FILL: usize = 21;

pub type W = [u32; 22];
pub const BASE_W: W = [6, 5, 6, 4, 4, 5, 6, 8, 4, 3, 2, 4, 2, 2, 1, 1, 1, 1, 2, 1, 1, 1];

#[derive(Clone)]
pub struct Plan {
    pub w: W,
    pub ops: usize,
    /// longest list
    pub cap_len: usize,
    /// one in `n` operations runs with a fuse (0: never)
    pub fuse: usize,
    pub fuse_mask: u32,
    /// one in `n` operations runs with a failing allocator (0: never)
    pub oom: usize,
    /// one in `n` reservations asks for the impossible
    pub huge: usize,
    /// one in `n` cases starts from a conversion (0: never)
    pub preload: usize,
    /// how many elements (and how long ones) a case starts with, where few do
    pub bulk: usize,
    pub long: usize,
}
impl Default for Plan {
    fn default() -> Self {
        Plan { w: BASE_W, ops: 24, cap_len: 14, fuse: 0, fuse_mask: 0, oom: 0, huge: 6, preload: 8, bulk: 0, long: 0 }
    }
}

pub struct One<K: Kind> {
    pub v: UnsizedVec<K::T>,
    pub m: Vec<Desc>,
    pub align_floor: usize,
}
impl<K: Kind> One<K> {
    pub fn new() -> Self {
        own(|| One { v: sut(UnsizedVec::new), m: Vec::new(), align_floor: 0 })
    }
}

pub fn addr_of<T: ?Sized>(t: &T) -> usize {
    std::ptr::from_ref(t).cast::<()>().addr()
}

pub fn round_up(n: usize, a: usize) -> usize {
    n.div_ceil(a) * a
}

/// Observes element `i` after making sure that looking at it is safe.
pub fn look<K: Kind>(t: &K::T, what: &str) -> Option<Desc> {
    let (a, s, al) = (addr_of(t), size_of_val(t), align_of_val(t));
    if !al.is_power_of_two() || a % al != 0 {
        fail!(Align, "{what}: reference at {a:#x} is not aligned to {al}");
        return None;
    }
    if let Some(k) = K::ALIGN {
        ensure!(k == al, Align, "{what}: alignment {al} reported for a type of alignment {k}");
    }
    if s > 0 {
        match heap::block_of(a) {
            Some((base, b)) if a + s <= base + b.size => {}
            Some((base, b)) => {
                fail!(Heap, "{what}: element at {a:#x} size {s} leaves its block {base:#x} size {}", b.size);
                return None;
            }
            None => {
                fail!(Heap, "{what}: element at {a:#x} size {s} is not inside a live block");
                return None;
            }
        }
    }
    let d = K::obs(t);
    count("observations", 1);
    Some(d)
}

/// Checks one vec against its model and all its invariants.
pub fn check_one<K: Kind>(o: &mut One<K>, name: &str) {
    let v = &o.v;
    let n = o.m.len();
    if v.len() != n {
        fail!(Model, "{name}: len() is {}, the list has {n}", v.len());
        return;
    }
    ensure!(v.is_empty() == (n == 0), Model, "{name}: is_empty() with {n} elements");
    let al = v.align();
    ensure!(al.is_power_of_two(), Align, "{name}: align() is {al}");
    let mut off = 0usize;
    let mut first = 0usize;
    let mut max_al = 1usize;
    for i in 0..n {
        let Some(t) = v.get(i) else {
            fail!(Model, "{name}: get({i}) is None with {n} elements");
            return;
        };
        let a = addr_of(t);
        if i == 0 {
            first = a;
        } else if a != first + off {
            fail!(Layout, "{name}: element {i} lies {} bytes after the first, expected {off}", a.wrapping_sub(first) as isize);
        }
        let Some(d) = look::<K>(t, name) else { return };
        if d != o.m[i] {
            fail!(Model, "{name}: element {i} is {d:?}, the list has {:?}", o.m[i]);
            return;
        }
        max_al = max_al.max(align_of_val(t));
        let s = size_of_val(t);
        off += if K::PACKED { s } else { round_up(s, al.max(1)) };
    }
    ensure!(v.get(n).is_none(), Model, "{name}: get({n}) is Some with {n} elements");
    let bl = v.byte_len();
    ensure!(bl == off, Layout, "{name}: byte_len() is {bl}, the elements occupy {off}");
    ensure!(v.capacity() >= n, Cap, "{name}: capacity() {} below len {n}", v.capacity());
    ensure!(v.byte_capacity() >= bl, Cap, "{name}: byte_capacity() {} below byte_len {bl}", v.byte_capacity());
    ensure!(al >= max_al, Align, "{name}: align() {al} below the alignment {max_al} of an element");
    if let (Some(k), true) = (K::ALIGN, K::PACKED) {
        ensure!(al == k, Align, "{name}: align() is {al} for a type of alignment {k}");
    }
    ensure!(al >= o.align_floor, Align, "{name}: align() went down from {} to {al} without being asked", o.align_floor);
    o.align_floor = al;
    if n > 0 && bl > 0 {
        // the bytes of the vec start where its first element starts
        let byte_cap = v.byte_capacity();
        match heap::block_of(first) {
            Some((base, b)) => {
                ensure!(first + byte_cap <= base + b.size, Cap, "{name}: byte_capacity() {byte_cap} exceeds the block ({} bytes)", b.size);
            }
            None => fail!(Heap, "{name}: the first element at {first:#x} is in no live block"),
        }
        ensure!(first % al == 0, Align, "{name}: the elements start at {first:#x}, align() is {al}");
    }
    // iteration sees the same references as indexing
    let mut i = 0;
    for t in v.iter() {
        if i >= n {
            i += 1;
            break;
        }
        let w = &v[i];
        ensure!(addr_of(t) == addr_of(w) && size_of_val(t) == size_of_val(w), Model,
            "{name}: iterator and index disagree at {i}: {:#x}/{} vs {:#x}/{}", addr_of(t), size_of_val(t), addr_of(w), size_of_val(w));
        i += 1;
    }
    ensure!(i == n, Model, "{name}: iterator yields {i} elements of {n}");
}

#[derive(Clone, Copy, Debug)]
pub struct Shape {
    pub len: usize,
    pub bytes: usize,
    pub cap: usize,
    pub bcap: usize,
    pub align: usize,
    pub first: usize,
}
pub fn shape<T: ?Sized>(v: &UnsizedVec<T>) -> Shape {
    Shape {
        len: v.len(),
        bytes: v.byte_len(),
        cap: v.capacity(),
        bcap: v.byte_capacity(),
        align: v.align(),
        first: v.get(0).map_or(0, addr_of),
    }
}

pub struct Hist<K: Kind> {
    pub vs: [One<K>; 2],
    pub held: Vec<(Box<K::T>, Desc)>,
    /// values that will never be dropped (forgotten, or lost to a panic)
    pub leaked: i64,
    pub leaks_ok: bool,
    pub r: Rng,
    pub p: Prof,
    pub plan: Plan,
    pub since: u64,
    /// what the running operation is adding
    pending: Vec<Desc>,
    pending_at: (usize, usize),
    pending_any: bool,
    fusing: bool,
    kind_no: u64,
}

impl<K: Kind> Hist<K> {
    pub fn new(mut r: Rng, plan: Plan, kind_no: u64) -> Self {
        let mut p = Prof::draw(&mut r);
        if plan.long > 0 {
            p.max_len = plan.long;
        }
        if plan.bulk > 700 {
            // none whose alignment would make the vec outgrow the monitored heap
            own(|| p.classes = vec![4, 5, 6, 7, 8, 9, 10, 11, 19, 20, 1]);
        }
        own(|| Hist {
            since: heap::seq(),
            vs: [One::new(), One::new()],
            held: Vec::new(),
            leaked: 0,
            leaks_ok: false,
            r,
            p,
            plan,
            pending: Vec::new(),
            pending_at: (0, 0),
            pending_any: false,
            fusing: false,
            kind_no,
        })
    }

    /// Starts from a converted collection instead of an empty vec.
    pub fn preload(&mut self) {
        let got = calm("converting", || K::preload(&mut self.r, &self.p));
        if let Some(Some((v, m))) = got {
            logf!("vec 0 starts as a conversion with {} elements", m.len());
            self.vs[0].v = v;
            self.vs[0].m = m;
            self.check();
        }
    }

    /// Starts with many elements, or with long ones.
    pub fn bulk(&mut self) {
        let n = self.plan.bulk;
        logf!("vec 0 starts with {n} elements of up to {} items", self.p.max_len);
        let ahead = self.r.chance(1, 4);
        for k in 0..n {
            let how = self.r.below(3);
            let at = (self.r.chance(1, 3) && (n < 3000 || !ahead)).then(|| self.vs[0].m.len() - self.r.below(self.vs[0].m.len().min(9) + 1));
            match catch(|| self.add(0, at, how)) {
                Ok(()) => {}
                Err(e) => fail!(Panic, "adding element {k} of {n}: unexpected panic: {e:?}"),
            }
            if k % 64 == 0 {
                poll();
            }
            if failed() || self.vs[0].v.byte_len() > 2 << 20 {
                break;
            }
        }
        count("large_vecs", 1);
        if !failed() {
            self.check();
        }
    }

    pub fn run(&mut self) {
        if self.plan.bulk > 0 {
            self.bulk();
            if failed() {
                return;
            }
        }
        for _ in 0..self.plan.ops {
            self.step();
            if failed() {
                return;
            }
        }
        self.finish();
    }

    /// Drops everything and looks for what is left.
    pub fn finish(&mut self) {
        logf!("drop everything");
        let [a, b] = std::mem::replace(&mut self.vs, [One::new(), One::new()]);
        let order = self.r.chance(1, 2);
        let held = own(|| std::mem::take(&mut self.held));
        calm("dropping the vecs", || {
            sut(|| {
                if order {
                    drop(a.v);
                    drop(b.v);
                } else {
                    drop(b.v);
                    drop(a.v);
                }
            });
        });
        own(|| {
            drop(a.m);
            drop(b.m);
        });
        own(|| drop(held));
        poll();
        if failed() {
            return;
        }
        let live = reg::live_total();
        if self.leaks_ok {
            ensure!(live >= 0, Own, "more values dropped than made");
        } else {
            ensure!(live == self.leaked, Own, "{live} values are alive at the end, {} were forgotten", self.leaked);
            if self.leaked == 0 {
                let l = heap::live_since(self.since);
                if let Some((p, b)) = l.first() {
                    fail!(Heap, "{} blocks leaked, first {p:#x} size {} align {} ({:?})", l.len(), b.size, b.align, b.who);
                }
            } else {
                let l = heap::live_since(self.since);
                if let Some((p, b)) = l.iter().find(|(_, b)| b.who == Who::Sut) {
                    fail!(Heap, "a block of the vec leaked: {p:#x} size {} align {}", b.size, b.align);
                }
            }
        }
        heap::verify();
        heap::flush_quarantine();
        poll();
    }

    fn tracked(&self) -> i64 {
        let mut n = 0;
        for o in &self.vs {
            for d in &o.m {
                n += K::tracked(d);
            }
        }
        for (_, d) in &self.held {
            n += K::tracked(d);
        }
        n
    }

    pub fn check(&mut self) {
        poll();
        if failed() {
            return;
        }
        for (i, o) in self.vs.iter_mut().enumerate() {
            check_one(o, if i == 0 { "a" } else { "b" });
            if failed() {
                return;
            }
        }
        for (b, d) in &self.held {
            let o = K::obs(b);
            ensure!(o == *d, Own, "a value handed out changed: {o:?}, was {d:?}");
        }
        let live = reg::live_total();
        let want = self.tracked() + self.leaked;
        ensure!(live == want, Own, "{live} live values, expected {want} ({} reachable + {} forgotten)", want - self.leaked, self.leaked);
        let blocks = heap::live(Who::Sut);
        let most: usize = self.vs.iter().map(|o| {
            let (c, b) = (o.v.capacity(), o.v.byte_capacity());
            if K::SIZED { usize::from(b > 0) } else { usize::from(c > 0) + usize::from(b > 0) }
        }).sum();
        if !self.leaks_ok {
            ensure!(blocks <= most, Layout, "{blocks} heap blocks for two vecs that may own {most}");
        }
        heap::verify();
        poll();
    }

    fn pick_vec(&mut self) -> usize {
        usize::from(self.r.chance(1, 4))
    }

    pub fn step(&mut self) {
        let mut w = self.plan.w;
        let i = self.pick_vec();
        let n = self.vs[i].m.len();
        if n == 0 {
            w[WRITE] = 0;
            w[REMOVE] = 0;
        }
        if n >= self.plan.cap_len {
            for k in [PUSH, PUSH_WITH, PUSH_SP, INS, INS_WITH, INS_SP, EXTEND, FILL] {
                w[k] = 0;
            }
            w[POP] += 6;
            w[REMOVE] += 6;
        }
        if self.held.len() > 8 {
            w[DROP_SOME] += 20;
        }
        let op = self.r.weighted(&w);
        let fuse = self.plan.fuse > 0 && self.r.chance(1, self.plan.fuse);
        let oom = !fuse && self.plan.oom > 0 && self.r.chance(1, self.plan.oom);
        let before: Shape = shape(&self.vs[i].v);
        if fuse || oom {
            self.step_hostile(op, i, fuse);
        } else {
            match catch(|| self.op(op, i)) {
                Ok(()) => {}
                Err(e) => {
                    fail!(Panic, "{} on vec {i}: unexpected panic: {e:?}", OPS[op]);
                    return;
                }
            }
        }
        if failed() {
            return;
        }
        // observation is what costs most under Miri
        if !cfg!(miri) || self.r.chance(1, 3) {
            self.check();
        }
        count("operations", 1);
        let s = shape(&self.vs[i].v);
        print(hash_all(&[
            self.kind_no,
            op as u64,
            size_class(s.len),
            size_class(s.bytes),
            u64::from(s.cap == s.len) * 2 + u64::from(s.bcap == s.bytes),
            s.align as u64,
            u64::from(before.bcap != s.bcap) + 2 * u64::from(before.align != s.align) + 4 * u64::from(before.cap != s.cap),
            u64::from(fuse) * 2 + u64::from(oom),
        ]));
    }

    /// Runs an operation in which user code may panic or the allocator may refuse.
    fn step_hostile(&mut self, op: usize, i: usize, fuse: bool) {
        if matches!(op, WRITE | SWAP | OOR | ITER | DROP_SOME | FILL) {
            if let Err(e) = catch(|| self.op(op, i)) {
                fail!(Panic, "{} on vec {i}: unexpected panic: {e:?}", OPS[op]);
            }
            return;
        }
        let old: [Vec<Desc>; 2] = own(|| [self.vs[0].m.clone(), self.vs[1].m.clone()]);
        own(|| self.pending.clear());
        self.pending_at = (9, 0);
        self.pending_any = false;
        self.fusing = true;
        let n = self.r.range(1, 5) as i64;
        if fuse {
            let mask = if self.r.chance(1, 3) { 1 << self.r.below(8) } else { self.plan.fuse_mask };
            logf!("-- a panic at event {n} of kinds {mask:#x} during {}", OPS[op]);
            reg::fuse_set(n, mask & self.plan.fuse_mask);
        } else {
            logf!("-- allocation {n} fails during {}", OPS[op]);
            heap::fail_nth(n as u64, self.r.chance(1, 2), 0);
        }
        let res = catch(|| self.op(op, i));
        reg::fuse_off();
        heap::fail_off();
        self.fusing = false;
        poll();
        if failed() {
            return;
        }
        match res {
            Ok(()) => {}
            Err(Caught::Other(m)) => fail!(Panic, "{} on vec {i}: unexpected panic: {m}", OPS[op]),
            Err(_) => {
                count(if fuse { "injected_panics" } else { "injected_allocation_failures" }, 1);
                logf!("-- it panicked");
                self.recover(&old);
            }
        }
    }

    /// After a panic: the vec may have lost elements (leaked or dropped), never gained or changed any.
    fn recover(&mut self, old: &[Vec<Desc>; 2]) {
        self.leaks_ok = true;
        for j in 0..2 {
            let n = self.vs[j].v.len();
            if n > old[j].len() + self.pending.len() + 1 {
                fail!(Model, "vec {j} has {n} elements after a panic, had {}", old[j].len());
                return;
            }
            let mut now: Vec<Desc> = own(|| Vec::with_capacity(n));
            for k in 0..n {
                let Some(t) = self.vs[j].v.get(k) else {
                    fail!(Model, "get({k}) is None after a panic with len {n}");
                    return;
                };
                let Some(d) = look::<K>(t, "after a panic") else { return };
                own(|| now.push(d));
            }
            poll();
            if failed() {
                return;
            }
            let adding = !self.pending.is_empty() && self.pending_at.0 == j;
            let fine = if now == old[j] {
                true
            } else if self.pending_any && self.pending_at.0 == j {
                let at = self.pending_at.1;
                now.len() == old[j].len() + 1 && now[..at] == old[j][..at] && now[at + 1..] == old[j][at..]
            } else if adding {
                // everything of the old list, plus a prefix of what was being added
                let at = self.pending_at.1;
                let k = now.len() as isize - old[j].len() as isize;
                k > 0
                    && (k as usize) <= self.pending.len()
                    && now[..at] == old[j][..at]
                    && now[at..at + k as usize] == self.pending[..k as usize]
                    && now[at + k as usize..] == old[j][at..]
            } else {
                let mut it = old[j].iter();
                now.iter().all(|d| it.any(|o| o == d))
            };
            ensure!(fine, Model, "after a panic vec {j} holds {now:?}; before it held {:?}, being added: {:?} at {:?}", old[j], self.pending, self.pending_at);
            own(|| self.vs[j].m = now);
        }
        for k in (0..self.held.len()).rev() {
            let d = K::obs(&self.held[k].0);
            ensure!(d == self.held[k].1, Own, "a value handed out changed during a panic");
        }
        poll();
        let live = reg::live_total();
        let reach = self.tracked();
        ensure!(live >= reach, Own, "{live} live values after a panic but {reach} are reachable");
        self.leaked = live - reach;
    }

    fn op(&mut self, op: usize, i: usize) {
        match op {
            PUSH | PUSH_WITH | PUSH_SP => self.add(i, None, op),
            INS | INS_WITH | INS_SP => {
                let n = self.vs[i].m.len();
                let at = match self.r.below(4) {
                    0 => 0,
                    1 => n,
                    _ => self.r.range(0, n),
                };
                self.add(i, Some(at), op - 3);
            }
            POP => self.take(i, None),
            REMOVE => {
                let n = self.vs[i].m.len();
                if n > 0 {
                    let at = match self.r.below(4) {
                        0 => 0,
                        1 => n - 1,
                        _ => self.r.below(n),
                    };
                    self.take(i, Some(at));
                }
            }
            WRITE => self.write(i),
            RESERVE => self.reserve(i, false, false),
            TRY_RESERVE => self.reserve(i, true, false),
            RES_ALIGN => {
                let t = self.r.chance(1, 2);
                self.reserve(i, t, true);
            }
            SHRINK => self.shrink(i),
            EXTEND => self.extend(i),
            ITER => self.iterate(i),
            RENEW => self.renew(i),
            SWAP => {
                logf!("swap the two vecs");
                let (a, b) = self.vs.split_at_mut(1);
                std::mem::swap(&mut a[0].v, &mut b[0].v);
                std::mem::swap(&mut a[0].m, &mut b[0].m);
                std::mem::swap(&mut a[0].align_floor, &mut b[0].align_floor);
            }
            OOR => self.out_of_range(i),
            CONVERT => {
                let before = shape(&self.vs[i].v);
                let mut r = self.r.clone();
                if K::convert(&mut self.vs[i].v, &mut r) {
                    logf!("convert vec {i} to a Vec and back");
                    let s = shape(&self.vs[i].v);
                    ensure!(s.len == before.len, Model, "a conversion changed the length");
                }
                self.r = r;
            }
            TRANSFER => self.transfer(i),
            DROP_SOME => {
                let k = self.held.len() / 2;
                logf!("drop {k} values held");
                let tail = own(|| self.held.split_off(self.held.len() - k));
                own(|| drop(tail));
            }
            FILL => self.fill(i),
            _ => unreachable!(),
        }
    }

    /// Announces what is being added, for recovery after a panic.
    fn pend(&mut self, i: usize, at: Option<usize>, d: &Desc) {
        if self.fusing {
            let n = self.vs[i].m.len();
            own(|| self.pending.push(d.clone()));
            self.pending_at = (i, at.unwrap_or(n));
        }
    }

    fn add(&mut self, i: usize, at: Option<usize>, how: usize) {
        let before = shape(&self.vs[i].v);
        let pre: Option<usize> = at.filter(|&a| a > 0).map(|a| addr_of(&self.vs[i].v[a - 1]));
        let mut r = self.r.clone();
        let p = self.p.clone_own();
        let mut allocates = false;
        let d;
        match how {
            PUSH => {
                let b = K::mk(&mut r, &p);
                d = K::obs(&b);
                logf!("vec {i}: add {} by value at {at:?}: {d:?}", K::NAME);
                self.pend(i, at, &d);
                let via = r.below(3);
                let v = &mut self.vs[i].v;
                let c0 = heap::counts();
                if via == 0 {
                    // by value, through an emplacable borrowed for the call
                    #[cfg(not(miri))]
                    sut(|| emplacable::with_emplacable_for::<K::T, _, ()>(*b, |e| Sink { v: &mut *v, at }.emp(e)));
                    #[cfg(miri)]
                    sut(|| Sink { v, at }.emp(fused(b.into())));
                } else {
                    sut(|| by_value!(Sink { v, at }, b));
                }
                self.added(i, at, d, before, pre, c0, allocates);
            }
            PUSH_WITH => {
                let b = K::mk(&mut r, &p);
                d = K::obs(&b);
                logf!("vec {i}: add {} by emplacable at {at:?}: {d:?}", K::NAME);
                self.pend(i, at, &d);
                let v = &mut self.vs[i].v;
                let c0 = heap::counts();
                match r.below(3) {
                    0 => sut(|| Sink { v, at }.emp(fused(from_box(b)))),
                    1 => sut(|| Sink { v, at }.emp(from_box(b))),
                    _ => sut(|| Sink { v, at }.emp(b.into())),
                }
                self.added(i, at, d, before, pre, c0, allocates);
            }
            _ => {
                let route = r.below(K::SPECIALS);
                allocates = false;
                logf!("vec {i}: add {} by special route {route} at {at:?}", K::NAME);
                // the value is made inside, so it is not known before the call
                self.pending_any = self.fusing;
                self.pending_at = (i, at.unwrap_or(before.len));
                let v = &mut self.vs[i].v;
                let c0 = heap::counts();
                d = K::special(route, &mut r, &p, Sink { v, at });
                logf!("    it is {d:?}");
                self.added(i, at, d, before, pre, c0, allocates);
            }
        }
        self.r = r;
        own(|| drop(p));
    }

    #[allow(clippy::too_many_arguments)]
    fn added(&mut self, i: usize, at: Option<usize>, d: Desc, s0: Shape, pre: Option<usize>, c0: heap::Counts, allocates: bool) {
        own(|| {
            let m = &mut self.vs[i].m;
            match at {
                None => m.push(d),
                Some(a) => m.insert(a, d),
            }
        });
        let s1 = shape(&self.vs[i].v);
        let c1 = heap::counts();
        if s1.len == s0.len + 1 && s1.len <= s0.cap && s1.align == s0.align && s1.bytes <= s0.bcap {
            count("adds_within_capacity", 1);
            if !allocates {
                ensure!(c1.allocs == c0.allocs && c1.reallocs == c0.reallocs, Cap,
                    "adding within capacity called the allocator ({} allocations, {} reallocations): before {s0:?}, after {s1:?}",
                    c1.allocs - c0.allocs, c1.reallocs - c0.reallocs);
            }
            ensure!(s1.cap == s0.cap && s1.bcap == s0.bcap, Cap, "adding within capacity changed the capacities: {s0:?} to {s1:?}");
            if at.is_none_or(|a| a > 0) && s0.len > 0 {
                ensure!(s1.first == s0.first, Cap, "adding within capacity moved the first element");
            }
            if let (Some(p), Some(a)) = (pre, at) {
                ensure!(addr_of(&self.vs[i].v[a - 1]) == p, Cap, "inserting at {a} within capacity moved element {}", a - 1);
            }
        } else {
            count("adds_beyond_capacity", 1);
        }
    }

    fn take(&mut self, i: usize, at: Option<usize>) {
        let route = self.r.below(11);
        let n = self.vs[i].m.len();
        let s0 = shape(&self.vs[i].v);
        logf!("vec {i} (len {n}): {} route {route}", match at { None => "pop".to_string(), Some(a) => format!("remove {a}") });
        let want: Option<Desc> = own(|| match at {
            None => self.vs[i].m.last().cloned(),
            Some(a) => Some(self.vs[i].m[a].clone()),
        });
        let c0 = heap::counts();
        let v = &mut self.vs[i].v;
        let out = match at {
            None => {
                let e = sut(|| v.pop_into());
                match (e, want) {
                    (None, None) => return,
                    (Some(e), Some(w)) => consume::<K, _>(e, route, w),
                    (e, w) => {
                        let some = e.is_some();
                        e.map(|e| std::mem::forget(e));
                        fail!(Model, "pop_into is_some: {some}, the list's last element is {w:?}");
                        return;
                    }
                }
            }
            Some(a) => {
                let e = sut(|| v.remove_into(a));
                consume::<K, _>(e, route, want.unwrap())
            }
        };
        let c1 = heap::counts();
        ensure!(c1.allocs == c0.allocs && c1.reallocs == c0.reallocs, Cap, "removing called the allocator");
        let gone = match out {
            Taken::Held(b, d) => {
                own(|| self.held.push((b, d)));
                true
            }
            Taken::Dropped => true,
            Taken::Forgotten(d) => {
                self.leaked += K::tracked(&d);
                own(|| drop(d));
                if !matches!(K::tracked(&Desc { cls: 0, ids: vec![] }), 1..) {
                    // memory owned by a forgotten value stays allocated
                }
                true
            }
            Taken::Untouched => false,
        };
        if gone {
            own(|| match at {
                None => drop(self.vs[i].m.pop()),
                Some(a) => drop(self.vs[i].m.remove(a)),
            });
        }
        let s1 = shape(&self.vs[i].v);
        ensure!(s1.cap == s0.cap && s1.bcap == s0.bcap && s1.align == s0.align, Cap, "removing changed the capacities: {s0:?} to {s1:?}");
        count("removals", 1);
    }

    fn write(&mut self, i: usize) {
        let n = self.vs[i].m.len();
        let mut r = self.r.clone();
        let how = r.below(4);
        let k = r.below(n);
        logf!("vec {i}: write in place (way {how}) at {k}");
        let v = &mut self.vs[i].v;
        let mut writes = |t: &mut K::T, m: &mut Desc| {
            K::poke(t, &mut r);
            let d = K::obs(t);
            own(|| *m = d);
        };
        match how {
            0 => writes(&mut v[k], &mut self.vs[i].m[k]),
            1 => match v.get_mut(k) {
                Some(t) => writes(t, &mut self.vs[i].m[k]),
                None => fail!(Model, "get_mut({k}) is None with {n} elements"),
            },
            2 => {
                // SAFETY: k < len
                writes(unsafe { v.get_unchecked_mut(k) }, &mut self.vs[i].m[k]);
            }
            _ => {
                let mut seen = 0;
                let rev = k % 2 == 0;
                let len = self.vs[i].m.len();
                let m = &mut self.vs[i].m;
                let mut go = |j: usize, t: &mut K::T| {
                    if j < len {
                        writes(t, &mut m[j]);
                    }
                    seen += 1;
                };
                if rev {
                    for (j, t) in v.iter_mut().rev().enumerate() {
                        go(len.wrapping_sub(j + 1), t);
                    }
                } else {
                    for (j, t) in v.iter_mut().enumerate() {
                        go(j, t);
                    }
                }
                ensure!(seen == len, Model, "iter_mut yields {seen} elements of {len}");
            }
        }
        self.r = r;
    }

    pub fn reserve(&mut self, i: usize, fallible: bool, aligned: bool) {
        let r = &mut self.r;
        let exact = r.chance(1, 2);
        let level = if aligned { 2 } else { r.below(3) };
        let huge = self.plan.huge > 0 && r.chance(1, self.plan.huge);
        let (mut add, mut bytes, mut align) = (r.below(12), 0, 1usize);
        if level > 0 {
            bytes = *r.pick(&[0usize, 1, 3, 7, 8, 16, 40, 63, 64, 65, 200, 513]);
        }
        if level > 1 {
            align = 1 << *r.pick(&[0usize, 0, 1, 2, 3, 4, 5, 6, 7, 8, 12]);
            if self.plan.bulk > 700 {
                align = align.min(16);
            }
        }
        let mut impossible = false;
        if huge {
            let h = *r.pick(&[usize::MAX, usize::MAX - 1, usize::MAX / 2, usize::MAX / 4 + 6, isize::MAX as usize - 7, isize::MAX as usize]);
            let size = K::ALIGN.map_or(1, |_| 1);
            let _ = size;
            let zst = K::SIZED && self.vs[i].v.byte_capacity() == 0 && self.vs[i].v.capacity() == usize::MAX;
            match r.below(if level > 0 { 2 } else { 1 }) {
                0 => {
                    add = h;
                    impossible = !zst;
                }
                _ => {
                    bytes = h;
                    impossible = !zst;
                }
            }
            if zst {
                add = add.min(1000);
            }
        }
        let v = &mut self.vs[i].v;
        let s0 = shape(v);
        logf!("vec {i} {s0:?}: {}reserve{}{} additional {add} bytes {bytes} align {align}",
            if fallible { "try_" } else { "" }, if exact { "_exact" } else { "" }, ["", "_capacity_bytes", "_capacity_bytes_align"][level]);
        let c0 = heap::counts();
        let mut ok = true;
        if fallible {
            let res = sut(|| match (level, exact) {
                (0, false) => v.try_reserve(add),
                (0, true) => v.try_reserve_exact(add),
                (1, false) => v.try_reserve_capacity_bytes(add, bytes),
                (1, true) => v.try_reserve_exact_capacity_bytes(add, bytes),
                (_, false) => v.try_reserve_capacity_bytes_align(add, bytes, align),
                (_, true) => v.try_reserve_exact_capacity_bytes_align(add, bytes, align),
            });
            if let Err(e) = &res {
                ok = false;
                let refused = heap::counts().refused != c0.refused;
                ensure!(impossible || refused, Cap, "a possible reservation failed: {e:?}");
                own(|| drop(format!("{e:?}")));
                count("reservation_errors", 1);
            } else {
                ensure!(!impossible, Cap, "an impossible reservation succeeded: additional {add} bytes {bytes} on {s0:?} gave {:?}", shape(v));
            }
        } else {
            let call = |v: &mut UnsizedVec<K::T>| {
                sut(|| match (level, exact) {
                    (0, false) => v.reserve(add),
                    (0, true) => v.reserve_exact(add),
                    (1, false) => v.reserve_capacity_bytes(add, bytes),
                    (1, true) => v.reserve_exact_capacity_bytes(add, bytes),
                    (_, false) => v.reserve_capacity_bytes_align(add, bytes, align),
                    (_, true) => v.reserve_exact_capacity_bytes_align(add, bytes, align),
                });
            };
            if impossible {
                let res = catch(|| call(v));
                ok = false;
                ensure!(res.is_err(), Cap, "an impossible reservation succeeded");
                if let Err(Caught::Other(m)) = &res {
                    // the documented panic, not an arithmetic overflow on the way
                    ensure!(!m.contains("attempt to"), Panic, "an impossible reservation failed with: {m}");
                }
                count("reservation_panics", 1);
            } else {
                call(v);
            }
        }
        if failed() {
            return;
        }
        let s1 = shape(v);
        let c1 = heap::counts();
        ensure!(s1.cap >= s0.cap && s1.bcap >= s0.bcap, Cap, "a reservation reduced a capacity: {s0:?} to {s1:?}");
        ensure!(s1.len == s0.len, Model, "a reservation changed the length");
        if ok {
            count("reservations", 1);
            ensure!(s1.cap - s0.len >= add, Cap, "after reserving {add} more, capacity is {} for {} elements", s1.cap, s0.len);
            let zst = K::SIZED && s1.bcap == 0;
            ensure!(zst || s1.bcap >= s1.bytes + bytes, Cap, "after reserving {bytes} more bytes, {s1:?}");
            if K::ALIGN.is_none() || !K::PACKED {
                ensure!(s1.align >= align, Cap, "after reserving alignment {align}, align() is {}", s1.align);
            }
            if level == 0 && !K::SIZED {
                ensure!(s1.bcap == s0.bcap && s1.align == s0.align, Cap, "a reservation of metadata alone took {s0:?} to {s1:?}");
            }
            if exact {
                count("exact_reservations", 1);
                // elements and bytes of a Vec are one thing
                let asked = if K::SIZED && s1.cap > 0 && !zst { add.max(bytes.div_ceil((s1.bcap / s1.cap).max(1))) } else { add };
                ensure!(zst || s1.cap <= s0.cap.max(s0.len + asked), Cap, "an exact reservation of {add} elements and {bytes} bytes took {s0:?} to {s1:?}");
                let grown = s1.bytes - s0.bytes;
                ensure!(K::SIZED || s1.bcap <= s0.bcap.max(s0.bytes.saturating_add(bytes)).saturating_add(grown + if s1.align > s0.align { 3 } else { 1 } * s1.align), Cap, "an exact reservation of {bytes} bytes and alignment {align} took {s0:?} to {s1:?}");
                if level > 0 && s1.align == s0.align {
                    let unit = if K::SIZED && s0.cap > 0 && s0.bcap > 0 { s0.bcap / s0.cap } else { s1.align };
                    let unit = if K::SIZED { unit.max(if s1.cap > 0 { s1.bcap / s1.cap } else { 1 }) } else { unit };
                    // elements and bytes of a Vec are one thing
                    let extra = if K::SIZED { add.saturating_mul(unit) } else { 0 };
                    let most = s0.bcap.max(s0.bytes.saturating_add(bytes.saturating_add(unit).max(extra)));
                    ensure!(s1.bcap <= most, Cap, "an exact reservation of {bytes} bytes gave {s1:?}, before {s0:?}");
                }
                if s0.cap - s0.len >= add && s0.bcap - s0.bytes >= bytes && s0.align >= align {
                    ensure!(c1.allocs == c0.allocs && c1.reallocs == c0.reallocs, Cap, "an exact reservation already covered called the allocator: {s0:?} to {s1:?}");
                }
            }
            if s0.cap - s0.len >= add && s0.bcap - s0.bytes >= bytes && (s0.align >= align || K::PACKED) {
                ensure!(c1.allocs == c0.allocs && c1.reallocs == c0.reallocs, Cap, "a reservation already covered called the allocator: {s0:?} to {s1:?}");
            }
        }
    }

    pub fn shrink(&mut self, i: usize) {
        let r = &mut self.r;
        let which = r.below(4);
        let v = &mut self.vs[i].v;
        let s0 = shape(v);
        let need: usize = (0..s0.len).map(|k| align_of_val(&v[k])).max().unwrap_or(1);
        let min_cap = match r.below(4) {
            0 => 0,
            1 => s0.len,
            2 => usize::MAX,
            _ => r.below(20),
        };
        let min_bytes = match r.below(5) {
            0 => 0,
            1 => s0.bytes,
            2 => usize::MAX,
            3 => isize::MAX as usize - 3,
            _ => *r.pick(&[1usize, 5, 17, 33, 64, 100, 130, 255, 1001]),
        };
        let min_align = 1usize << *r.pick(&[0, 0, 0, 1, 2, 3, 4, 5, 6, 8, 12, usize::BITS - 1]);
        logf!("vec {i} {s0:?}: shrink way {which} min {min_cap} / {min_bytes} / {min_align}");
        sut(|| match which {
            0 => v.shrink_to_fit(),
            1 => v.shrink_to(min_cap),
            2 => v.shrink_capacity_bytes_to(min_cap, min_bytes),
            _ => v.shrink_capacity_bytes_align_to(min_cap, min_bytes, min_align),
        });
        let refused = heap::counts().refused;
        let s1 = shape(v);
        self.vs[i].align_floor = 0;
        count("shrinks", 1);
        ensure!(s1.len == s0.len, Model, "shrinking changed the length");
        ensure!(s1.cap <= s0.cap && s1.bcap <= s0.bcap && s1.align <= s0.align, Cap, "shrinking raised a capacity: {s0:?} to {s1:?}");
        let zst = K::SIZED && s0.bcap == 0;
        let (mc, mb, ma) = match which {
            0 => (0, 0, 1),
            1 => (min_cap, usize::MAX, usize::MAX),
            2 => (min_cap, min_bytes, usize::MAX),
            _ => (min_cap, min_bytes, min_align),
        };
        ensure!(s1.cap >= s0.cap.min(mc), Cap, "shrinking with minimum capacity {mc} went from {} to {}", s0.cap, s1.cap);
        if which != 1 || !K::SIZED {
            ensure!(s1.bcap >= s0.bcap.min(mb), Cap, "shrinking with minimum byte capacity {mb} went from {} to {}", s0.bcap, s1.bcap);
        }
        ensure!(s1.align >= s0.align.min(ma), Cap, "shrinking with minimum alignment {ma} went from {} to {}", s0.align, s1.align);
        let faulty = self.fusing && refused > 0;
        if which == 0 && !faulty {
            ensure!(zst || s1.bcap == s1.bytes, Cap, "shrink_to_fit left {s1:?}");
            if K::ALIGN.is_none() || !K::PACKED {
                ensure!(s1.align == need, Cap, "shrink_to_fit left alignment {} where {need} is needed", s1.align);
            }
        }
        if !zst && !faulty && which != 0 {
            // it does give back what may go
            if mc <= s0.cap && mc >= s0.len && (!K::SIZED || which == 1) {
                ensure!(s1.cap == mc || s0.cap == mc || (mc == 0 && s1.cap <= 4), Cap, "shrinking to {mc} elements left capacity {} (was {})", s1.cap, s0.cap);
            }
        }
        if s1.bcap < s0.bcap {
            count("shrinks_effective", 1);
        }
        if s1.align < s0.align {
            count("shrinks_of_alignment", 1);
        }
    }

    fn extend(&mut self, i: usize) {
        let k = self.r.below(5);
        logf!("vec {i}: extend by {k}");
        let mut items = own(|| Vec::with_capacity(k));
        let mut ds = own(|| Vec::with_capacity(k));
        for _ in 0..k {
            let b = K::mk(&mut self.r, &self.p);
            let d = K::obs(&b);
            own(|| {
                self.pend(i, None, &d);
                ds.push(d);
                items.push(b);
            });
        }
        let v = &mut self.vs[i].v;
        let items = items.into_iter();
        sut(|| v.extend(Watched { it: items.map(|b| fused(from_box(b))) }));
        own(|| self.vs[i].m.append(&mut ds));
    }

    fn iterate(&mut self, i: usize) {
        let o = &mut self.vs[i];
        let mut r = self.r.clone();
        if r.chance(1, 2) {
            crate::iters::check_iter::<K>(&o.v, &mut r);
        } else {
            crate::iters::check_iter_mut::<K>(&mut o.v, &mut o.m, &mut r);
        }
        self.r = r;
    }

    fn renew(&mut self, i: usize) {
        let r = &mut self.r;
        let (c, b) = (r.below(20), *r.pick(&[0usize, 1, 9, 64, 300]));
        let a = 1usize << *r.pick(&[0usize, 1, 3, 4, 5, 6, 8]);
        let how = r.below(5);
        logf!("vec {i}: replace by a new vec, way {how}, capacity {c} bytes {b} align {a}");
        let c0 = heap::counts();
        let v: UnsizedVec<K::T> = sut(|| match how {
            0 => UnsizedVec::new(),
            1 => UnsizedVec::default(),
            2 => UnsizedVec::with_capacity(c),
            3 => UnsizedVec::with_capacity_bytes(c, b),
            _ => UnsizedVec::with_capacity_bytes_align(c, b, a),
        });
        let c1 = heap::counts();
        let s = shape(&v);
        if how < 2 {
            ensure!(c1.allocs == c0.allocs, Layout, "a new vec allocates");
            ensure!(s.bcap == 0 && (s.cap == 0 || (K::SIZED && s.cap == usize::MAX)), Layout, "a new vec has capacity {s:?}");
        } else {
            ensure!(s.cap >= c, Cap, "with_capacity({c}) gives {s:?}");
            let zst = K::SIZED && s.cap == usize::MAX;
            let asked = if how > 2 && K::SIZED && s.cap > 0 { c.max(b.div_ceil((s.bcap / s.cap).max(1))) } else { c };
            ensure!(zst || s.cap <= asked, Cap, "a vec created for {c} elements and {b} bytes (way {how}) has {s:?}");
            ensure!(K::SIZED || s.bcap <= if how > 2 { b + s.align } else { 0 }, Cap, "a vec created for {c} elements and {b} bytes (way {how}) has {s:?}");
            if how > 2 && !zst {
                ensure!(s.bcap >= b, Cap, "with_capacity_bytes({c}, {b}) gives {s:?}");
            }
            if how > 3 && (K::ALIGN.is_none() || !K::PACKED) {
                ensure!(s.align >= a, Cap, "with_capacity_bytes_align({c}, {b}, {a}) gives {s:?}");
            }
        }
        self.vs[i].align_floor = 0;
        let old = std::mem::replace(&mut self.vs[i].v, v);
        own(|| self.vs[i].m.clear());
        sut(|| drop(old));
    }

    fn out_of_range(&mut self, i: usize) {
        let n = self.vs[i].m.len();
        // Far away, what a sum with the index, its product with a size or its
        // low bits give may well be in range.
        let k = match self.r.below(6) {
            0 => n,
            1 => n + 1,
            2 => n + self.r.below(100),
            3 => usize::MAX - self.r.below(3),
            4 => usize::MAX - self.r.below(n + 3),
            _ => {
                let bit = *self.r.pick(&[8u32, 16, 24, 31, 32, 33, usize::BITS - 4, usize::BITS - 3, usize::BITS - 2, usize::BITS - 1]);
                let k = 1usize.checked_shl(bit).unwrap_or(0).saturating_add(self.r.below(n + 2));
                if k < n { n } else { k }
            }
        };
        let what = self.r.below(9);
        logf!("vec {i} (len {n}): out of range way {what} at {k}");
        let mut r = self.r.clone();
        let live0 = reg::live_total();
        let s0 = shape(&self.vs[i].v);
        let v = &mut self.vs[i].v;
        match what {
            0 => ensure!(v.get(k).is_none(), Model, "get({k}) is Some with {n} elements"),
            1 => ensure!(v.get_mut(k).is_none(), Model, "get_mut({k}) is Some with {n} elements"),
            2 => {
                let p = catch(|| addr_of(&v[k]));
                ensure!(matches!(p, Err(Caught::Other(_))), Model, "indexing at {k} with {n} elements gives {p:?}");
            }
            3 => {
                let p = catch(|| addr_of(&mut v[k]));
                ensure!(matches!(p, Err(Caught::Other(_))), Model, "indexing mutably at {k} with {n} elements gives {p:?}");
            }
            4 => {
                let p = catch(|| sut(|| std::mem::forget(v.remove_into(k))));
                ensure!(matches!(p, Err(Caught::Other(_))), Model, "removing at {k} with {n} elements gives {p:?}");
            }
            5..=7 => {
                let k = if k == n { n + 1 } else { k };
                let b = K::mk(&mut r, &self.p);
                let p = match what {
                    5 => catch(|| sut(|| by_value!(Sink { v, at: Some(k) }, b))),
                    6 => catch(|| sut(|| Sink { v, at: Some(k) }.emp(from_box(b)))),
                    _ => {
                        own(|| drop(b));
                        let p = self.p.clone_own();
                        let route = r.below(K::SPECIALS);
                        let x = catch(|| {
                            K::special(route, &mut r, &p, Sink { v, at: Some(k) });
                        });
                        own(|| drop(p));
                        x
                    }
                };
                ensure!(matches!(p, Err(Caught::Other(_))), Model, "inserting at {k} with {n} elements gives {p:?}");
            }
            _ => {
                if n == 0 {
                    ensure!(sut(|| v.pop_into()).is_none(), Model, "pop_into of an empty vec is Some");
                }
            }
        }
        count("refusals", 1);
        let s1 = shape(&self.vs[i].v);
        ensure!(s1.len == s0.len && s1.bytes == s0.bytes, Model, "a refused request changed the vec: {s0:?} to {s1:?}");
        ensure!(reg::live_total() == live0, Own, "a refused value was not dropped exactly once");
        self.r = r;
    }

    /// Moves an element from one vec to another (or elsewhere in the same one) without naming it.
    fn transfer(&mut self, i: usize) {
        let n = self.vs[i].m.len();
        if n == 0 || self.fusing {
            return;
        }
        let j = 1 - i;
        let from = self.r.below(n);
        let pop = self.r.chance(1, 3);
        let from = if pop { n - 1 } else { from };
        let to = self.r.range(0, self.vs[j].m.len());
        let end = self.r.chance(1, 2);
        let wrap = self.r.chance(1, 3);
        logf!("move element {from} of vec {i} to {} of vec {j}", if end { "the end".to_string() } else { to.to_string() });
        let (a, b) = self.vs.split_at_mut(1);
        let (src, dst) = if i == 0 { (&mut a[0], &mut b[0]) } else { (&mut b[0], &mut a[0]) };
        let at = if end { None } else { Some(to) };
        let (sv, dv) = (&mut src.v, &mut dst.v);
        sut(|| {
            if pop {
                match sv.pop_into() {
                    Some(e) => Sink { v: dv, at }.emp(e),
                    None => fail!(Model, "pop_into is None with {n} elements"),
                }
            } else if wrap {
                Sink { v: dv, at }.emp(fused(sv.remove_into(from)));
            } else {
                Sink { v: dv, at }.emp(sv.remove_into(from));
            }
        });
        own(|| {
            let d = src.m.remove(from);
            match at {
                None => dst.m.push(d),
                Some(k) => dst.m.insert(k, d),
            }
        });
        count("transfers", 1);
    }

    /// Reserves exactly what a batch of elements needs, then adds them: no allocation, no move.
    fn fill(&mut self, i: usize) {
        let k = self.r.range(1, 6);
        let mut items: Vec<Box<K::T>> = own(|| Vec::with_capacity(k));
        let mut al = self.vs[i].v.align();
        for _ in 0..k {
            let b = K::mk(&mut self.r, &self.p);
            al = al.max(align_of_val(&*b));
            own(|| items.push(b));
        }
        let bytes: usize = items.iter().map(|b| if K::PACKED { size_of_val(&**b) } else { round_up(size_of_val(&**b), al) }).sum();
        let exact = self.r.chance(1, 2);
        let tight = self.r.chance(1, 2);
        logf!("vec {i}: reserve for {k} elements ({bytes} bytes, align {al}, exact {exact}), then add them");
        let v = &mut self.vs[i].v;
        if tight {
            sut(|| v.shrink_to_fit());
            self.vs[i].align_floor = 0;
        }
        let v = &mut self.vs[i].v;
        sut(|| match exact {
            true => v.reserve_exact_capacity_bytes_align(k, bytes, al),
            false => v.reserve_capacity_bytes_align(k, bytes, al),
        });
        let s0 = shape(v);
        let c0 = heap::counts();
        for b in items {
            let d = K::obs(&b);
            let n = self.vs[i].m.len();
            let at = if self.r.chance(1, 2) { None } else { Some(self.r.range(0, n)) };
            let how = self.r.below(3);
            let v = &mut self.vs[i].v;
            sut(|| match how {
                0 => by_value!(Sink { v, at }, b),
                1 => Sink { v, at }.emp(from_box(b)),
                _ => Sink { v, at }.emp(b.into()),
            });
            own(|| match at {
                None => self.vs[i].m.push(d),
                Some(a) => self.vs[i].m.insert(a, d),
            });
        }
        let c1 = heap::counts();
        let s1 = shape(&self.vs[i].v);
        ensure!(c1.allocs == c0.allocs && c1.reallocs == c0.reallocs, Cap,
            "{k} elements were reserved for, yet adding them called the allocator: {s0:?} to {s1:?}");
        ensure!(s1.cap == s0.cap && s1.bcap == s0.bcap && s1.align == s0.align, Cap, "{k} elements were reserved for, yet adding them changed the capacities: {s0:?} to {s1:?}");
        if s0.len > 0 {
            count("fills", 1);
        }
    }
}

impl Prof {
    pub fn clone_own(&self) -> Prof {
        own(|| self.clone())
    }
}

/// An iterator whose `next` is an event.
pub struct Watched<I> {
    pub it: I,
}
impl<I: Iterator> Iterator for Watched<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        reg::event(reg::EV_ITER);
        self.it.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.it.size_hint()
    }
}

pub enum Taken<T: ?Sized> {
    Held(Box<T>, Desc),
    Dropped,
    Forgotten(Desc),
    Untouched,
}

/// Takes delivery of an element handed out by the vec.
pub fn consume<K: Kind, F: EmplacableFn<K::T>>(e: Emplacable<K::T, F>, route: usize, want: Desc) -> Taken<K::T> {
    let check = |t: &K::T| {
        let (a, al) = (addr_of(t), align_of_val(t));
        if a % al != 0 {
            fail!(Align, "a value was delivered at {a:#x}, alignment {al}");
            return;
        }
        let d = K::obs(t);
        ensure!(d == want, Model, "handed out {d:?}, the list gives {want:?}");
    };
    match route {
        0 | 1 => {
            let b = elem(|| box_new_with(e));
            check(&b);
            Taken::Held(b, want)
        }
        2 => {
            let b = elem(|| box_pin_with(e));
            check(&b);
            // SAFETY: nothing relies on the pin
            Taken::Held(unsafe { std::pin::Pin::into_inner_unchecked(b) }, want)
        }
        3 => match strict_box(e) {
            Some(b) => {
                check(&b);
                Taken::Held(b, want)
            }
            None => Taken::Dropped,
        },
        4 => {
            let rc: Rc<K::T> = elem(|| e.into());
            check(&rc);
            elem(|| drop(rc));
            Taken::Dropped
        }
        5 => {
            let rc: Arc<K::T> = elem(|| e.into());
            check(&rc);
            elem(|| drop(rc));
            Taken::Dropped
        }
        6 | 7 => {
            sut(|| drop(e));
            Taken::Dropped
        }
        8 => {
            sut(|| e.forget());
            Taken::Forgotten(want)
        }
        9 => {
            std::mem::forget(e);
            Taken::Untouched
        }
        _ => {
            let l = strict_null(e);
            let _ = l;
            Taken::Dropped
        }
    }
}
