//! What adding and taking elements costs: allocator calls, bytes moved, time, memory kept.
use crate::ctx::*;
use crate::emp::*;
use crate::engine::*;
use crate::heap::{self, own, sut};
use crate::kinds::*;
use crate::moves;
use crate::rng::Rng;
use unsized_vec::UnsizedVec;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum How {
    Value,
    Box,
    With,
    Special,
    Extend,
    Reserve,
    Mixed,
}
const HOWS: [How; 9] = [How::Value, How::Box, How::With, How::Special, How::Extend, How::Reserve, How::Mixed, How::Value, How::With];

struct Bill {
    calls: u64,
    moved: u64,
    n: u64,
    /// bytes of all values ever added
    added: u64,
    aligns: u64,
}

struct Costs<K: Kind> {
    v: UnsizedVec<K::T>,
    m: Vec<Desc>,
    b: Bill,
    max_elem: usize,
    /// how room for one more is asked for
    way: usize,
}

fn lg(n: u64) -> u64 {
    u64::from(64 - n.leading_zeros())
}

impl<K: Kind> Costs<K> {
    fn add(&mut self, how: How, end: bool, r: &mut Rng, p: &Prof) {
        let (cap, bcap, al) = (self.v.capacity(), self.v.byte_capacity(), self.v.align());
        let n = self.m.len();
        let at = end.then_some(n);
        let how = if how == How::Mixed { HOWS[r.below(6)] } else { how };
        let b = if how == How::Special { None } else { Some(K::mk(r, p)) };
        let v = &mut self.v;
        let way = self.way;
        let c0 = heap::counts();
        let m0 = moves::moved();
        let d = match (how, b) {
            (How::Special, _) => K::special(r.below(K::SPECIALS), r, p, Sink { v, at }),
            (_, None) => unreachable!(),
            (how, Some(b)) => {
                let d = K::obs(&b);
                let via = r.below(2);
                match how {
                    How::Value => sut(|| by_value!(Sink { v, at }, b)),
                    How::Box if via == 0 => sut(|| Sink { v, at }.emp(b.into())),
                    #[cfg(not(miri))]
                    How::Box => sut(|| emplacable::with_emplacable_for::<K::T, _, ()>(*b, |e| Sink { v: &mut *v, at }.emp(e))),
                    #[cfg(miri)]
                    How::Box => sut(|| Sink { v: &mut *v, at }.emp(b.into())),
                    How::With => sut(|| Sink { v, at }.emp(from_box(b))),
                    // room for one more, asked for each time
                    How::Reserve => {
                        let (size, align) = (size_of_val(&*b), align_of_val(&*b));
                        sut(|| match way {
                            0 => v.reserve(1),
                            1 => drop(v.try_reserve(1)),
                            2 => v.reserve_capacity_bytes(1, size),
                            3 => drop(v.try_reserve_capacity_bytes(1, size)),
                            4 => v.reserve_capacity_bytes_align(1, size, align),
                            _ => drop(v.try_reserve_capacity_bytes_align(1, size, align)),
                        });
                        if via == 0 {
                            sut(|| by_value!(Sink { v, at }, b));
                        } else {
                            sut(|| Sink { v, at }.emp(from_box(b)));
                        }
                    }
                    _ if via == 0 => sut(|| v.extend(std::iter::once(from_box(b)))),
                    _ => sut(|| v.extend([from_box(b)])),
                }
                d
            }
        };
        let c1 = heap::counts();
        self.b.calls += c1.allocs - c0.allocs + c1.reallocs - c0.reallocs;
        self.b.moved += moves::moved() - m0;
        self.b.n += 1;
        self.b.aligns += u64::from(self.v.align() > al);
        own(|| self.m.push(d));
        if self.v.len() != n + 1 {
            fail!(Model, "adding one element turned {n} elements into {}", self.v.len());
            return;
        }
        let s = size_of_val(&self.v[n]);
        self.b.added += s as u64;
        self.max_elem = self.max_elem.max(s.max(align_of_val(&self.v[n])));
        ensure!(self.v.capacity() >= cap && self.v.byte_capacity() >= bcap, Cost, "adding an element gave back capacity");
    }

    /// How many allocator calls the additions since `b0` may have cost.
    fn check(&self, b0: &Bill, what: &str) {
        let n = self.b.n - b0.n;
        let bytes = self.v.byte_capacity() as u64;
        let calls = self.b.calls - b0.calls;
        let most = 2 * lg(self.v.capacity().min((usize::MAX >> 24).max(1 << 24)) as u64) + 2 * lg(bytes) + 2 * (self.b.aligns - b0.aligns) + 12;
        ensure!(calls <= most, Cost, "{what}: {n} additions took {calls} allocator calls (expected at most {most})");
        count("additions", n);
        count("allocator_calls", calls);
        if moves::COUNTED {
            let moved = self.b.moved - b0.moved;
            let most = 80 * (self.b.added - b0.added)
                + 16 * bytes * (1 + self.b.aligns - b0.aligns)
                + 3000 * n
                + 300_000;
            if std::env::var_os("MON_COST").is_some() {
                eprintln!("moved {moved} of {most}, n {n} bytes {bytes} calls {calls}");
            }
            ensure!(moved <= most, Cost, "{what}: {n} additions of {} bytes in all moved {moved} bytes (expected at most {most})", self.b.added - b0.added);
            count("bytes_moved", moved);
        }
    }

    fn pop(&mut self, keep: bool) {
        let (cap, bcap) = (self.v.capacity(), self.v.byte_capacity());
        let n = self.v.len();
        let c0 = heap::counts();
        let v = &mut self.v;
        let got = if keep {
            let b = sut(|| v.pop_into()).map(|e| strict_box(e));
            match b {
                Some(Some(b)) => {
                    ensure!(Some(K::obs(&b)) == self.m.last().map(clone_own), Model, "pop gave a different element");
                    own(|| drop(b));
                    true
                }
                _ => false,
            }
        } else {
            sut(|| v.pop_into().map(drop)).is_some()
        };
        let c1 = heap::counts();
        self.b.calls += c1.allocs - c0.allocs + c1.reallocs - c0.reallocs;
        ensure!(got && self.v.len() + 1 == n, Model, "pop of {n} elements left {}", self.v.len());
        own(|| self.m.pop());
        ensure!(self.v.capacity() == cap && self.v.byte_capacity() == bcap, Cost, "a pop changed the capacities");
    }

    fn contents(&self) {
        if self.v.len() != self.m.len() {
            fail!(Model, "len() is {}, the list has {}", self.v.len(), self.m.len());
            return;
        }
        for (i, t) in self.v.iter().enumerate() {
            if failed() {
                return;
            }
            let Some(d) = look::<K>(t, "element") else { return };
            ensure!(d == self.m[i], Model, "element {i} of {} is {d:?}, the list has {:?}", self.m.len(), self.m[i]);
            own(|| drop(d));
        }
    }

    fn mark(&self) -> Bill {
        Bill { ..self.b }
    }
}

fn clone_own(d: &Desc) -> Desc {
    own(|| d.clone())
}

fn cpu_ns() -> u64 {
    extern "C" {
        fn clock_gettime(id: i32, ts: *mut [i64; 2]) -> i32;
    }
    let mut ts = [0i64; 2];
    // SAFETY: CLOCK_THREAD_CPUTIME_ID
    unsafe { clock_gettime(3, &raw mut ts) };
    ts[0] as u64 * 1_000_000_000 + ts[1] as u64
}

/// A quadratic loop over many additions would take thousands of times longer than a linear one.
fn race<K: Kind>(r: &mut Rng) {
    // small values, so that the harness's own work does not drown the rest
    let p = &own(|| Prof { classes: vec![1, 4, 5, 6, 8, 10, 12], max_len: 3 });
    const N: usize = 24_000;
    const NS_PER_ADD: u64 = 40_000;
    let how = HOWS[r.below(HOWS.len())];
    let end = r.chance(1, 3);
    let way = r.below(6);
    logf!("{N} additions against the clock, {how:?}, at the end: {end}");
    let mut best = u64::MAX;
    for _ in 0..4 {
        let mut c: Costs<K> = fresh(way);
        let t0 = cpu_ns();
        for _ in 0..N {
            c.add(how, end, r, p);
            if failed() || c.v.byte_len() > 8 << 20 {
                break;
            }
        }
        let n = c.v.len() as u64;
        let t = cpu_ns() - t0;
        own(|| drop(c));
        if failed() {
            return;
        }
        best = best.min(t / n.max(1));
        if best < NS_PER_ADD {
            break;
        }
    }
    if std::env::var_os("MON_COST").is_some() {
        eprintln!("{best} ns per addition");
    }
    ensure!(best < NS_PER_ADD, Cost, "{N} additions ({how:?}) took {best} ns each: not constant time");
    count("timed_additions", N as u64);
}

fn fresh<K: Kind>(way: usize) -> Costs<K> {
    let v = sut(UnsizedVec::new);
    Costs { v, m: Vec::new(), b: Bill { calls: 0, moved: 0, n: 0, added: 0, aligns: 0 }, max_elem: 0, way }
}

pub fn cost<K: Kind>(r: &mut Rng, k: u64) {
    let since = heap::seq();
    let p = Prof::draw(r);
    let how = HOWS[r.below(HOWS.len())];
    let end = r.chance(1, 4);
    let way = r.below(6);
    print(hash_all(&[7000, k, how as u64, u64::from(end)]));
    if cfg!(debug_assertions) && r.chance(1, 100) && !cfg!(miri) {
        calm("additions", || race::<K>(r));
        own(|| drop(p));
        expect_clean(since, false);
        return;
    }
    let n = match r.below(20) {
        0 if cfg!(miri) => r.range(80, 200),
        0 => r.range(600, 4000),
        1..=6 if !cfg!(miri) => r.range(80, 600),
        _ => r.range(0, 80),
    };
    logf!("{n} additions to a vec of {}, {how:?} (reserving way {way}), at the end: {end}", K::NAME);
    calm("additions", || {
        let mut c: Costs<K> = fresh(way);
        let b0 = c.mark();
        for i in 0..n {
            c.add(how, end, r, &p);
            if i % 64 == 0 {
                poll();
            }
            if failed() || c.v.byte_len() > 2 << 20 {
                break;
            }
        }
        if !failed() {
            c.check(&b0, "from empty");
            let (len, cap, bytes, bcap) = (c.v.len(), c.v.capacity(), c.v.byte_len(), c.v.byte_capacity());
            if cap != usize::MAX {
                ensure!(cap <= 4 * len + 64, Cost, "room for {cap} elements is kept for {len}");
                ensure!(bcap <= 4 * bytes + 8 * c.max_elem + 256, Cost, "{bcap} bytes are kept for {bytes}");
            }
            print(hash_all(&[7001, k, how as u64, size_class(len), size_class(bytes)]));
            c.contents();
        }
        // back and forth around some size
        for _ in 0..r.below(4) {
            if failed() || c.v.is_empty() {
                break;
            }
            for _ in 0..r.below(c.v.len().min(100)) {
                c.pop(false);
                if failed() {
                    break;
                }
            }
            if r.chance(1, 3) && !failed() {
                let v = &mut c.v;
                let way = r.below(3);
                sut(|| match way {
                    0 => v.shrink_to_fit(),
                    1 => v.shrink_to(0),
                    _ => v.shrink_capacity_bytes_align_to(0, 0, 1),
                });
                logf!("shrunk to {} elements", c.v.len());
            }
            let (j, times) = (r.range(1, 6), r.range(1, if cfg!(miri) { 6 } else { 60 }));
            logf!("{times} times {j} pops and pushes at {} elements", c.v.len());
            let b0 = c.mark();
            for _ in 0..times {
                let j = j.min(c.v.len());
                for _ in 0..j {
                    c.pop(r.chance(1, 4));
                }
                for _ in 0..j {
                    if failed() {
                        break;
                    }
                    c.add(how, end, r, &p);
                }
                if failed() {
                    break;
                }
            }
            if !failed() {
                let calls = c.b.calls - b0.calls;
                let most = 6 + lg(c.v.byte_capacity() as u64) + 2 * (c.b.aligns - b0.aligns);
                ensure!(calls <= most, Cost, "{times} times {j} pops and pushes took {calls} allocator calls (expected at most {most})");
                count("alternations", times as u64);
                c.contents();
            }
        }
        if !failed() {
            let b0 = c.mark();
            let all = r.chance(1, 2);
            while !failed() && !c.v.is_empty() && all {
                c.pop(false);
            }
            ensure!(c.b.calls == b0.calls, Cost, "pops called the allocator");
        }
        own(|| if failed() { std::mem::forget(c) } else { drop(c) });
    });
    own(|| drop(p));
    count("checks", 1);
    expect_clean(since, false);
}
