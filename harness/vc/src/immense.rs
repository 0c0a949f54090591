//! V01: slices that are as long as a length can be, of items that take no space.
use crate::Scenario;
use emplacable::{box_new_with, rc_new_with, Emplacable};
use mon::ctx::*;
use mon::emp::*;
use mon::heap::{self, elem, own, sut};
use mon::rng::Rng;
use std::ptr;
use unsized_vec::UnsizedVec;

pub const ALL: &[Scenario] = &[
    ("immense slices of nothing", |_, r| immense::<[()]>(r)),
    ("immense slices of aligned nothing", |_, r| immense::<[Nil]>(r)),
    ("structs with an immense tail of nothing", |_, r| immense::<Tailed<u32, [()]>>(r)),
    ("structs with an immense tail of aligned nothing", |_, r| immense::<Tailed<u8, [Nil]>>(r)),
];

#[derive(Clone, Copy)]
#[repr(align(32))]
pub struct Nil;
#[repr(C)]
pub struct Tailed<H, T: ?Sized> {
    h: H,
    t: T,
}

/// What an element is: its length, and the value of its head.
type Is = (usize, u64);

pub trait Im: 'static {
    fn draw(r: &mut Rng) -> (Box<Self>, Is);
    fn see(&self) -> Is;
    /// Adds by a route of its own, if there is one.
    fn special(_: &mut UnsizedVec<Self>, _: &mut Rng, _: Option<usize>) -> Option<Is> {
        None
    }
    fn start(_: &mut Rng) -> (UnsizedVec<Self>, Vec<Is>) {
        (UnsizedVec::new(), Vec::new())
    }
}
fn length(r: &mut Rng) -> usize {
    let near = *r.pick(&[0usize, 1, 7, 8, 15, 16, 24, 31, 32, 33, 48, 63]);
    let near = 1usize << near.min(usize::BITS as usize - 1);
    match r.below(10) {
        0 => 0,
        1 => usize::MAX - r.below(4),
        2 => r.next() as usize,
        3 => r.below(10),
        4 => isize::MAX as usize - r.below(3),
        5 | 6 => near.wrapping_sub(r.below(3)),
        _ => near.wrapping_add(r.below(4)),
    }
}
/// Items that take no space, any number of which can be had for nothing.
fn nothing<T: Copy + 'static>(n: usize) -> &'static mut [T] {
    assert!(size_of::<T>() == 0);
    // SAFETY: there is nothing to point to
    unsafe { std::slice::from_raw_parts_mut(ptr::without_provenance_mut(align_of::<T>()), n) }
}
fn vec_of<T: Copy + 'static>(n: usize) -> Vec<T> {
    let mut v = Vec::new();
    // SAFETY: there is room for any number of them, and nothing to initialise
    unsafe { v.set_len(n) };
    v
}
fn put<T: ?Sized, F: emplacable::EmplacableFn<T>>(v: &mut UnsizedVec<T>, at: Option<usize>, e: Emplacable<T, F>) {
    match at {
        Some(i) => v.insert_with(i, e),
        None => v.push_with(e),
    }
}

macro_rules! slices {
    ($($t:ty),*) => {$(
        impl Im for [$t] {
            fn draw(r: &mut Rng) -> (Box<Self>, Is) {
                let n = length(r);
                // SAFETY: a box of nothing
                (unsafe { Box::from_raw(nothing::<$t>(n)) }, (n, 0))
            }
            fn see(&self) -> Is {
                ensure!(self.as_ptr().addr() % align_of::<$t>() == 0, Align, "a slice of nothing at {:p}", self.as_ptr());
                (self.len(), 0)
            }
            fn special(v: &mut UnsizedVec<Self>, r: &mut Rng, at: Option<usize>) -> Option<Is> {
                const HUGE: usize = (1 << (usize::BITS - 24)) + 5;
                let n = length(r);
                Some((match r.below(5) {
                    0 => { let s: &[$t] = nothing(n); put(v, at, s.into()); n }
                    1 => { put(v, at, vec_of::<$t>(n).into()); n }
                    2 => {
                        let e: Emplacable<[$t; HUGE], _> = Box::new(nothing_at::<[$t; HUGE]>()).into();
                        put(v, at, e.unsize());
                        HUGE
                    }
                    3 => {
                        let e: Emplacable<[$t], _> = vec_of::<$t>(n).into();
                        let back: Vec<$t> = sut(|| e.into_vec());
                        ensure!(back.len() == n, Value, "a Vec of {n} items became one of {}", back.len());
                        put(v, at, back.into());
                        n
                    }
                    _ => {
                        let e: Emplacable<[$t], _> = vec_of::<$t>(n).into();
                        let back = sut(|| rc_new_with(e));
                        ensure!(back.len() == n, Value, "an Rc of {n} items became one of {}", back.len());
                        put(v, at, (&*back).into());
                        n
                    }
                }, 0))
            }
            fn start(r: &mut Rng) -> (UnsizedVec<Self>, Vec<Is>) {
                const HUGE: usize = usize::MAX - 4;
                if r.chance(1, 4) {
                    let n = r.below(4);
                    let s: Vec<[$t; HUGE]> = vec_of(n);
                    let u: UnsizedVec<[$t; HUGE]> = s.into();
                    (sut(|| u.unsize()), own(|| vec![(HUGE, 0); n]))
                } else {
                    (UnsizedVec::new(), Vec::new())
                }
            }
        }
    )*};
}
fn nothing_at<T: Copy>() -> T {
    assert!(size_of::<T>() == 0);
    // SAFETY: takes no space and has but one value
    unsafe { ptr::without_provenance::<T>(align_of::<T>()).read() }
}
slices!((), Nil);

macro_rules! tails {
    ($($h:ty, $t:ty);*) => {$(
        impl Im for Tailed<$h, [$t]> {
            fn draw(r: &mut Rng) -> (Box<Self>, Is) {
                let (n, h) = (length(r), r.next() as $h);
                let b: Box<Tailed<$h, [$t; 0]>> = elem(|| Box::new(Tailed { h, t: [] }));
                let p = Box::into_raw(b);
                // SAFETY: the size does not depend on the length
                (unsafe { Box::from_raw(ptr::from_raw_parts_mut(p.cast::<()>(), n)) }, (n, u64::from(h)))
            }
            fn see(&self) -> Is {
                ensure!((&raw const *self).addr() % align_of::<Tailed<$h, $t>>() == 0, Align, "a struct at {:p}", self);
                (self.t.len(), u64::from(self.h))
            }
        }
    )*};
}
tails!(u32, (); u8, Nil);

fn immense<T: Im + ?Sized>(r: &mut Rng) {
    let since = heap::seq();
    let mut trail = 0u64;
    calm("immense slices", || {
        let (mut v, mut m) = T::start(r);
        for _ in 0..r.range(1, 12) {
            let way = r.below(16);
            trail = trail * 17 + way as u64;
            let at = if way % 2 == 0 { Some(r.below(m.len() + 1)) } else { None };
            let at_m = at.unwrap_or(m.len());
            logf!("way {way} at {at:?} with {} elements", m.len());
            match way {
                0..=3 => {
                    let (b, is) = T::draw(r);
                    #[cfg(not(miri))]
                    if way > 1 {
                        sut(|| match at {
                            Some(i) => v.insert(i, *b),
                            None => v.push(*b),
                        });
                        own(|| m.insert(at_m, is));
                        continue;
                    }
                    sut(|| put(&mut v, at, b.into()));
                    own(|| m.insert(at_m, is));
                }
                4 | 5 => {
                    let (b, is) = T::draw(r);
                    sut(|| put(&mut v, at, fused(b.into())));
                    own(|| m.insert(at_m, is));
                }
                6..=9 => {
                    if let Some(is) = T::special(&mut v, r, at) {
                        own(|| m.insert(at_m, is));
                    }
                }
                10 | 11 if !m.is_empty() => {
                    let i = if way == 10 { r.below(m.len()) } else { m.len() - 1 };
                    let is = own(|| m.remove(i));
                    let how = r.below(5);
                    let u = &mut v;
                    macro_rules! out {
                        ($e:expr) => {
                            match how {
                                0 => { let b = sut(|| box_new_with($e)); ensure!(b.see() == is, Value, "took {:?}, it was {is:?}", b.see()); sut(|| drop(b)); }
                                1 => match sut(|| strict_box($e)) {
                                    Some(b) => { ensure!(b.see() == is, Value, "took {:?}, it was {is:?}", b.see()); elem(|| drop(b)); }
                                    None => fail!(Value, "nothing was emplaced"),
                                },
                                2 => sut(|| drop($e)),
                                3 => { sut(|| strict_null($e)); }
                                _ => { sut(|| $e.forget()); }
                            }
                        };
                    }
                    if way == 10 { out!(u.remove_into(i)) } else { out!(u.pop_into().unwrap()) }
                }
                12 if !m.is_empty() => {
                    // from one vec to another, and back
                    let i = r.below(m.len());
                    let mut w: UnsizedVec<T> = UnsizedVec::new();
                    sut(|| w.push_with(v.remove_into(i)));
                    ensure!(w.len() == 1 && w[0].see() == m[i], Value, "moved {:?}, it was {:?}", w[0].see(), m[i]);
                    sut(|| v.insert_with(i, w.pop_into().unwrap()));
                    sut(|| drop(w));
                }
                13 => sut(|| v.shrink_to_fit()),
                14 => sut(|| v.reserve_capacity_bytes(3, 50)),
                15 => {
                    let mut it = v.iter();
                    let (mut i, mut j) = (0, m.len());
                    while let Some(e) = if r.chance(1, 2) { i += 1; it.next().map(|e| (i - 1, e)) } else { j = j.wrapping_sub(1); it.next_back().map(|e| (j, e)) } {
                        ensure!(e.1.see() == m[e.0], Value, "the iterator gives {:?}, it was {:?}", e.1.see(), m[e.0]);
                    }
                }
                _ => {}
            }
            if failed() {
                break;
            }
            ensure!(v.len() == m.len(), Model, "{} elements, expected {}", v.len(), m.len());
            let mut bytes = 0;
            for (i, is) in m.iter().enumerate() {
                let Some(e) = v.get(i) else {
                    fail!(Model, "element {i} of {} is missing", m.len());
                    break;
                };
                ensure!(e.see() == *is, Value, "element {i} is {:?}, it was {is:?}", e.see());
                bytes += size_of_val(e).next_multiple_of(if size_of_val(e) == 0 { 1 } else { v.align() });
            }
            ensure!(failed() || v.byte_len() == bytes, Layout, "{} bytes, expected {bytes}", v.byte_len());
            for (e, is) in v.iter_mut().zip(&m) {
                ensure!(e.see() == *is, Value, "an element is {:?}, it was {is:?}", e.see());
            }
            count("deliveries", m.len() as u64);
        }
        sut(|| drop(v));
        own(|| drop(m));
    });
    print(hash_all(&[2001, trail]));
    poll();
    expect_clean(since, false);
}
