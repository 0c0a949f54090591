//! Harness-side emplacers and emplacables: the ones that watch, and the ones that panic.

use crate::heap::{elem, own, sut};
use crate::reg;
use emplacable::{Emplacable, EmplacableFn, Emplacer};
use std::alloc::Layout;
use std::marker::PhantomData;
use std::ptr::Pointee;

struct Last(std::cell::UnsafeCell<Option<Layout>>);
// SAFETY: the worker is single-threaded.
unsafe impl Sync for Last {}
static LAST: Last = Last(std::cell::UnsafeCell::new(None));
fn told(l: Layout) {
    // SAFETY: single thread
    unsafe { *LAST.0.get() = Some(l) };
}
/// What the last strict emplacer was told, if one ran since this was last asked.
pub fn take_told() -> Option<Layout> {
    // SAFETY: single thread
    unsafe { (*LAST.0.get()).take() }
}

/// Emplaces into a fresh box through an emplacer that watches the protocol:
/// called at most once, announced layout equal to the layout of what was
/// written, every byte of a packed value written, nothing outside.
pub fn strict_box<T: ?Sized, F: EmplacableFn<T>>(e: Emplacable<T, F>) -> Option<Box<T>> {
    let mut out: Option<*mut T> = None;
    let mut calls = 0u32;
    let mut ret = 0u32;
    let f = e.into_fn();
    {
        let mut ef = |layout: Layout, meta: <T as Pointee>::Metadata, inner: &mut dyn FnMut(*mut PhantomData<T>)| {
            calls += 1;
            told(layout);
            let p = if layout.size() == 0 {
                std::ptr::without_provenance_mut::<u8>(layout.align())
            } else {
                // SAFETY: size is not zero
                elem(|| unsafe { std::alloc::alloc(layout) })
            };
            assert!(!p.is_null());
            reg::event(reg::EV_EMPLACER);
            inner(p.cast());
            ret += 1;
            let w: *mut T = std::ptr::from_raw_parts_mut(p.cast::<()>(), meta);
            // SAFETY: the emplacable announced this metadata for the value it just wrote
            let (s, a) = unsafe { (size_of_val(&*w), align_of_val(&*w)) };
            ensure!(s == layout.size() && a == layout.align(), Announce,
                "an emplacer was told size {} align {}, the value has size {s} align {a}", layout.size(), layout.align());
            out = Some(w);
        };
        // SAFETY: the closure provides memory of the announced layout
        f(unsafe { Emplacer::from_fn(&mut ef) });
    }
    ensure!(calls == 1 && ret == 1, Announce, "the emplacer ran {calls} times");
    // SAFETY: allocated with the layout of the value
    out.map(|p| unsafe { Box::from_raw(p) })
}

/// Hands a null pointer: the value must be dropped, nothing written.
pub fn strict_null<T: ?Sized, F: EmplacableFn<T>>(e: Emplacable<T, F>) -> Option<Layout> {
    let mut seen = None;
    let mut calls = 0u32;
    let f = e.into_fn();
    {
        let mut ef = |layout: Layout, _m: <T as Pointee>::Metadata, inner: &mut dyn FnMut(*mut PhantomData<T>)| {
            calls += 1;
            seen = Some(layout);
            told(layout);
            inner(std::ptr::null_mut());
        };
        // SAFETY: null is allowed
        f(unsafe { Emplacer::from_fn(&mut ef) });
    }
    ensure!(calls == 1, Announce, "the emplacer ran {calls} times");
    seen
}

/// An emplacer that never calls back (the value is forgotten or stays where it was).
pub fn strict_never<T: ?Sized, F: EmplacableFn<T>>(e: Emplacable<T, F>) -> Option<Layout> {
    let mut seen = None;
    let f = e.into_fn();
    {
        let mut ef = |layout: Layout, _m: <T as Pointee>::Metadata, _inner: &mut dyn FnMut(*mut PhantomData<T>)| {
            seen = Some(layout);
            told(layout);
        };
        // SAFETY: not calling back is allowed
        f(unsafe { Emplacer::from_fn(&mut ef) });
    }
    seen
}

/// The same emplacable, with events (possible panics) around every stage.
pub fn fused<T: ?Sized, F: EmplacableFn<T>>(e: Emplacable<T, F>) -> Emplacable<T, impl EmplacableFn<T>> {
    let f = e.into_fn();
    // SAFETY: forwards to a well-behaved closure
    unsafe {
        Emplacable::from_fn(move |em: &mut Emplacer<'_, T>| {
            reg::event(reg::EV_CLOSURE_BEFORE);
            let ef = em.into_fn();
            let mut ef2 = |layout: Layout, meta: <T as Pointee>::Metadata, inner: &mut dyn FnMut(*mut PhantomData<T>)| {
                ef(layout, meta, &mut |p| {
                    reg::event(reg::EV_CLOSURE_INSIDE);
                    // an emplacer may not unwind once this has returned,
                    // so there is no event after it
                    inner(p);
                });
            };
            f(Emplacer::from_fn(&mut ef2));
            reg::event(reg::EV_CLOSURE_AFTER);
        })
    }
}

/// An emplacable that moves the value out of a box the harness owns.
pub fn from_box<T: ?Sized>(b: Box<T>) -> Emplacable<T, impl EmplacableFn<T>> {
    // SAFETY: announces the exact layout and metadata, writes the whole value
    unsafe {
        Emplacable::from_fn(move |em: &mut Emplacer<'_, T>| {
            let layout = Layout::for_value(&*b);
            let meta = std::ptr::metadata(&raw const *b);
            let mut b = Some(b);
            let ef = em.into_fn();
            ef(layout, meta, &mut |p| {
                let Some(b) = b.take() else {
                    fail!(Announce, "an emplacer called back twice");
                    return;
                };
                if p.is_null() {
                    drop(b);
                } else {
                    let q = p.cast::<u8>();
                    if q.addr() % layout.align() != 0 {
                        fail!(Align, "an emplacer was given memory at {:#x} for alignment {}", q.addr(), layout.align());
                        std::mem::forget(b);
                        return;
                    }
                    let raw = Box::into_raw(b);
                    std::ptr::copy_nonoverlapping(raw.cast::<u8>(), q, layout.size());
                    if layout.size() > 0 {
                        elem(|| std::alloc::dealloc(raw.cast(), layout));
                    }
                }
            });
            // not called back: the value is forgotten
            if let Some(b) = b {
                let raw = Box::into_raw(b);
                if layout.size() > 0 {
                    elem(|| std::alloc::dealloc(raw.cast(), layout));
                }
            }
        })
    }
}
#[allow(unused)]
fn _u() {
    own(|| sut(|| ()));
}
