// What the scenarios share (included by each of their crates).
#[macro_use]
extern crate mon;

use emplacable::*;
use mon::ctx::*;
use mon::emp::*;
use mon::heap::{self, elem, own, sut, Who};
use mon::kinds::{Desc, Obj};
use mon::reg;
use mon::rng::Rng;
use mon::toks::*;
use std::cell::Cell;
use std::ffi::{CStr, CString, OsStr, OsString};
use std::path::{Path, PathBuf};
use std::pin::Pin;
use std::rc::Rc;
use std::sync::Arc;
use unsized_vec::UnsizedVec;

pub type Scenario = (&'static str, fn(&str, &mut Rng));

/// Passes the value in a box by value to something that makes an emplacable of it.
macro_rules! passed {
    ($T:ty, $R:ty, $b:expr, |$e:ident| $f:expr) => {{
        #[cfg(not(miri))]
        {
            with_emplacable_for::<$T, _, $R>(*$b, |$e| $f)
        }
        #[cfg(miri)]
        {
            let $e = from_box::<$T>($b);
            $f
        }
    }};
}
macro_rules! with_tok {
    ($r:expr, $T:ident => $e:expr) => {
        match {
            let c = $r.below(10);
            print(hash_all(&[1098, c as u64]));
            c
        } {
            0 => { type $T = Z1; $e }
            1 => { type $T = Z16; $e }
            2 => { type $T = B1; $e }
            3 => { type $T = B3; $e }
            4 => { type $T = W6; $e }
            5 => { type $T = Q8; $e }
            6 => { type $T = Q24; $e }
            7 => { type $T = X16; $e }
            8 => { type $T = L64; $e }
            _ => { type $T = Hb; $e }
        }
    };
}

fn vals<T: Tok>(t: &[T], what: &str) -> Vec<u64> {
    if t.len() > 1 << 20 {
        fail!(Value, "{what}: a slice of {} items", t.len());
        return Vec::new();
    }
    let a = t.as_ptr().addr();
    if a % align_of::<T>() != 0 {
        fail!(Align, "{what}: a slice at {a:#x}, its items need alignment {}", align_of::<T>());
        return Vec::new();
    }
    let s = size_of_val(t);
    if s > 0 && what != "stack" {
        match heap::block_of(a) {
            Some((base, b)) if a + s <= base + b.size => {}
            _ => {
                fail!(Heap, "{what}: {s} bytes at {a:#x} are not inside a live block");
                return Vec::new();
            }
        }
    }
    count("deliveries", 1);
    own(|| t.iter().map(value).collect())
}
fn make<T: Tok>(n: usize) -> (Vec<T>, Vec<u64>) {
    let v: Vec<T> = elem(|| {
        let mut v = Vec::with_capacity(n);
        v.extend((0..n).map(|_| T::fresh()));
        v
    });
    let d = own(|| v.iter().map(value).collect());
    (v, d)
}
fn exact(addr: usize, size: usize, align: usize, what: &str) {
    if size > 0 {
        match heap::block_of(addr) {
            Some((base, b)) => ensure!(base == addr && b.size == size && b.align == align, Announce,
                "{what}: {size} bytes (align {align}) at {addr:#x} live in a block {base:#x} of {} bytes (align {})", b.size, b.align),
            None => fail!(Heap, "{what}: {size} bytes at {addr:#x} are in no live block"),
        }
    }
}
fn allocated(c0: heap::Counts) -> (u64, u64) {
    let c = heap::counts();
    (c.allocs - c0.allocs, c.reallocs - c0.reallocs)
}
fn one_block(c0: heap::Counts, size: usize, what: &str) {
    let (a, r) = allocated(c0);
    ensure!(a == u64::from(size > 0) && r == 0, Announce, "{what}: {size} bytes took {a} allocations and {r} reallocations");
}
fn no_block(c0: heap::Counts, what: &str) {
    let (a, r) = allocated(c0);
    ensure!(a == 0 && r == 0, Announce, "{what} made {a} allocations and {r} reallocations");
}
fn hostile(prop: &str, r: &mut Rng) -> bool {
    matches!(prop, "E05") && r.chance(2, 3) || matches!(prop, "E04" | "E02") && r.chance(1, 4)
}
/// Mostly as many as usual, at times a lot.
fn many(r: &mut Rng, usual: usize) -> usize {
    if cfg!(miri) || !r.chance(1, 150) {
        usual
    } else if r.chance(1, 10) {
        r.range(5000, 70_000)
    } else {
        r.range(30, 2500)
    }
}
fn arm(r: &mut Rng, mask: u32, items: usize) {
    let mask = if r.chance(1, 2) { mask } else { u32::MAX };
    let far = r.chance(1, 4);
    let n = r.range(1, if far { items.max(7) + 3 } else { 7 }) as i64;
    logf!("a panic at event {n} of kinds {mask:#x}");
    reg::fuse_set(n, mask);
}
fn disarm() {
    reg::fuse_off();
    heap::fail_off();
}
/// The case is over: `leaks` says whether values may have been forgotten.
fn end(since: u64, leaks: bool) {
    count("checks", 1);
    expect_clean(since, leaks);
    if leaks {
        reg::reset();
        heap::abandon();
    }
}
/// A panic that was injected is fine, any other is not.
fn settle<R>(x: Result<R, Caught>, armed: bool, what: &str) -> Option<R> {
    disarm();
    poll();
    match x {
        Ok(r) => Some(r),
        Err(Caught::Other(m)) => {
            fail!(Panic, "{what}: unexpected panic: {m}");
            None
        }
        Err(_) => {
            ensure!(armed, Panic, "{what}: unexpected panic");
            count("injected_panics", 1);
            let n = heap::live(Who::Sut);
            ensure!(n == 0, Heap, "{what}: {n} blocks stay allocated after a panic");
            None
        }
    }
}

// ---------------------------------------------------------------- slices of tracked values

#[derive(PartialEq, Debug)]
enum Fate {
    Delivered,
    Dropped,
    Forgotten,
    Panicked,
}

/// Sends a slice to a destination and checks it there.
fn slice_into<T: Tok, F: EmplacableFn<[T]>>(e: Emplacable<[T], F>, route: usize, want: &[u64], single: bool) -> Fate {
    let c0 = heap::counts();
    let n = want.len();
    let bytes = n * size_of::<T>();
    let same = |got: &[T], what: &str| {
        let g = vals(got, what);
        ensure!(failed() || g == want, Value, "{what}: got {g:?}, it was {want:?}");
        own(|| drop(g));
    };
    match route {
        0 | 1 => {
            let v: Vec<T> = sut(|| if route == 0 { e.into_vec() } else { Vec::from(e) });
            disarm();
            same(&v, "Vec");
            if size_of::<T>() > 0 {
                ensure!(v.capacity() == v.len(), Announce, "a Vec of {} items has capacity {}", v.len(), v.capacity());
            }
            exact(v.as_ptr().addr(), bytes, align_of::<T>(), "Vec");
            if single {
                one_block(c0, bytes, "Vec");
            }
            sut(|| drop(v));
        }
        2 => {
            let b = sut(|| box_new_with(e));
            disarm();
            same(&b, "Box");
            exact(b.as_ptr().addr(), bytes, align_of::<T>(), "Box");
            if single {
                one_block(c0, bytes, "Box");
            }
            sut(|| drop(b));
        }
        3 => {
            let b: Rc<[T]> = sut(|| e.into());
            disarm();
            same(&b, "Rc");
            sut(|| drop(b));
        }
        4 => {
            let b: Arc<[T]> = sut(|| arc_new_with(e));
            disarm();
            same(&b, "Arc");
            sut(|| drop(b));
        }
        5 => {
            let mut v: UnsizedVec<[T]> = UnsizedVec::new();
            sut(|| v.push_with(e));
            disarm();
            same(&v[0], "UnsizedVec");
            sut(|| drop(v));
        }
        6 => {
            let b = sut(|| strict_box(e));
            disarm();
            match b {
                Some(b) => same(&b, "strict"),
                None => fail!(Value, "nothing was emplaced"),
            }
        }
        7 => {
            let b = sut(|| rc_pin_with(e));
            disarm();
            same(&b, "pinned Rc");
            sut(|| drop(b));
        }
        8 => {
            let l = sut(|| strict_null(e));
            disarm();
            ensure!(l.map(|l| (l.size(), l.align())) == Some((bytes, align_of::<T>())), Announce,
                "{bytes} bytes of alignment {} were announced as {l:?}", align_of::<T>());
            no_block(c0, "dropping");
            return Fate::Dropped;
        }
        9 => {
            sut(|| drop(e));
            disarm();
            no_block(c0, "dropping");
            return Fate::Dropped;
        }
        10 => {
            sut(|| e.forget());
            disarm();
            no_block(c0, "forgetting");
            return Fate::Forgotten;
        }
        _ => {
            sut(|| strict_never(e));
            disarm();
            no_block(c0, "forgetting");
            return Fate::Forgotten;
        }
    }
    Fate::Delivered
}

/// After the values of `want` met their fate, the registry must agree.
fn agree(f: &Fate, n: usize, what: &str) {
    poll();
    let live = reg::live_total();
    match f {
        Fate::Delivered | Fate::Dropped => ensure!(live == 0, Own, "{what}: {live} values are still alive"),
        Fate::Forgotten => ensure!(live == n as i64, Own, "{what}: {n} values were forgotten, {live} are alive"),
        Fate::Panicked => ensure!(live >= 0, Own, "{what}: more values dropped than made"),
    }
}

fn tokens<T: Tok, const N: usize>() -> ([T; N], Vec<u64>) {
    let a: [T; N] = std::array::from_fn(|_| T::fresh());
    let w = own(|| a.iter().map(value).collect());
    (a, w)
}

