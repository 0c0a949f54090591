//! Scenarios for emplacables of concrete types.
#![feature(allocator_api, unsized_fn_params, unsize, ptr_metadata)]
#![allow(internal_features, clippy::all, unexpected_cfgs, dead_code, unused_imports, unused_macros)]

include!("../../ec/src/common.rs");

pub const SCENARIOS: [Scenario; 1] = [("plain data", plain)];

// ---------------------------------------------------------------- values without destructors

/// Values without a destructor, whose sources own memory all the same.
trait Plain: Copy + PartialEq + std::fmt::Debug + 'static {
    fn draw(r: &mut Rng) -> Self;
}
macro_rules! plains {
    ($($t:ty: $r:ident => $e:expr;)*) => {$(
        impl Plain for $t {
            #[allow(unused)]
            fn draw($r: &mut Rng) -> Self { $e }
        }
    )*};
}
#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(C, align(64))]
struct Wide(u64, u8);
plains! {
    (): _r => ();
    u8: r => r.below(256) as u8;
    u16: r => r.below(65536) as u16;
    [u8; 3]: r => std::array::from_fn(|_| r.below(256) as u8);
    u64: r => r.next();
    u128: r => u128::from(r.next()) << 64 | u128::from(r.next());
    Wide: r => Wide(r.next(), r.below(256) as u8);
    Option<&'static str>: r => *r.pick(&[None, Some("a"), Some("")]);
    (u8, u64): r => (r.below(256) as u8, r.next());
}
macro_rules! with_plain {
    ($r:expr, $T:ident => $e:expr) => {
        match {
            let c = $r.below(9);
            print(hash_all(&[1099, c as u64]));
            c
        } {
            0 => { type $T = (); $e }
            1 => { type $T = u8; $e }
            2 => { type $T = u16; $e }
            3 => { type $T = [u8; 3]; $e }
            4 => { type $T = u64; $e }
            5 => { type $T = u128; $e }
            6 => { type $T = Wide; $e }
            7 => { type $T = Option<&'static str>; $e }
            _ => { type $T = (u8, u64); $e }
        }
    };
}

fn plain_into<T: Plain, F: EmplacableFn<[T]>>(e: Emplacable<[T], F>, route: usize, want: &[T]) -> Fate {
    let c0 = heap::counts();
    let bytes = size_of_val(want);
    let same = |got: &[T], what: &str| {
        count("deliveries", 1);
        let (a, s) = (got.as_ptr().addr(), size_of_val(got));
        ensure!(a % align_of::<T>() == 0, Align, "{what}: a slice at {a:#x}, its items need alignment {}", align_of::<T>());
        if s > 0 {
            match heap::block_of(a) {
                Some((base, b)) if a + s <= base + b.size => {}
                _ => fail!(Heap, "{what}: {s} bytes at {a:#x} are not inside a live block"),
            }
        }
        ensure!(failed() || got == want, Value, "{what}: got {got:?}, it was {want:?}");
    };
    let told = |l: Option<std::alloc::Layout>| {
        ensure!(l.map(|l| (l.size(), l.align())) == Some((bytes, align_of::<T>())), Announce,
            "{bytes} bytes of alignment {} were announced as {l:?}", align_of::<T>());
    };
    match route {
        0 => {
            let v: Vec<T> = sut(|| e.into_vec());
            disarm();
            same(&v, "Vec");
            ensure!(size_of::<T>() == 0 || v.capacity() == v.len(), Announce, "a Vec of {} items has capacity {}", v.len(), v.capacity());
            exact(v.as_ptr().addr(), bytes, align_of::<T>(), "Vec");
            one_block(c0, bytes, "Vec");
            sut(|| drop(v));
        }
        1 => {
            let b = sut(|| box_new_with(e));
            disarm();
            same(&b, "Box");
            exact(b.as_ptr().addr(), bytes, align_of::<T>(), "Box");
            one_block(c0, bytes, "Box");
            sut(|| drop(b));
        }
        2 => {
            let b: Rc<[T]> = sut(|| e.into());
            disarm();
            same(&b, "Rc");
            sut(|| drop(b));
        }
        3 => {
            let b = sut(|| arc_pin_with(e));
            disarm();
            same(&b, "pinned Arc");
            sut(|| drop(b));
        }
        4 => {
            let mut v: UnsizedVec<[T]> = UnsizedVec::new();
            sut(|| v.push_with(e));
            disarm();
            same(&v[0], "UnsizedVec");
            sut(|| drop(v));
        }
        5 => {
            let b = sut(|| strict_box(e));
            disarm();
            told(take_told());
            match b {
                Some(b) => same(&b, "strict"),
                None => fail!(Value, "nothing was emplaced"),
            }
        }
        6 => {
            let mut v: UnsizedVec<[T]> = UnsizedVec::new();
            sut(|| v.push_with(e));
            disarm();
            same(&v[0], "UnsizedVec");
            let b = sut(|| box_new_with(v.pop_into().unwrap()));
            same(&b, "popped");
            ensure!(v.is_empty(), Model, "a vec of one is not empty after a pop");
            sut(|| { drop(b); drop(v) });
        }
        7 => {
            let l = sut(|| strict_null(e));
            disarm();
            told(l);
            no_block(c0, "dropping");
            return Fate::Dropped;
        }
        8 => {
            sut(|| drop(e));
            disarm();
            no_block(c0, "dropping");
            return Fate::Dropped;
        }
        9 => {
            sut(|| e.forget());
            disarm();
            no_block(c0, "forgetting");
            return Fate::Forgotten;
        }
        _ => {
            let l = sut(|| strict_never(e));
            disarm();
            told(l);
            no_block(c0, "forgetting");
            return Fate::Forgotten;
        }
    }
    Fate::Delivered
}

/// Slices as long as a length can be, of items that take no space.
fn immense<T: Copy + 'static>(r: &mut Rng) {
    assert!(size_of::<T>() == 0);
    let since = heap::seq();
    let (src, route) = (r.below(4), r.below(13));
    let near = 1usize << r.below(usize::BITS as usize);
    let n = match r.below(6) {
        0 => usize::MAX - r.below(3),
        1 => isize::MAX as usize + 1 - r.below(3),
        2 => r.next() as usize,
        _ => near.wrapping_add(r.below(4)).wrapping_sub(r.below(4)),
    };
    logf!("{n} items of alignment {} and no size, source {src}, destination {route}", align_of::<T>());
    print(hash_all(&[1014, src as u64, route as u64, size_class(n), align_of::<T>() as u64]));
    let vec = || {
        let mut v = Vec::<T>::new();
        // SAFETY: there is room for any number of them, and nothing to initialise
        unsafe { v.set_len(n) };
        v
    };
    // dropping a Vec given as source looks at each item
    let route = if src == 0 && matches!(route, 7 | 8) { 0 } else { route };
    calm("immense slices", || {
        macro_rules! go {
            ($e:expr) => {{
                let e = $e;
                let c0 = heap::counts();
                let same = |got: &[T], what: &str| {
                    count("deliveries", 1);
                    ensure!(got.len() == n, Value, "{what}: {} items, there were {n}", got.len());
                    ensure!(got.as_ptr().addr() % align_of::<T>() == 0, Align, "{what}: a slice at {:p}", got.as_ptr());
                };
                let told = |l: Option<std::alloc::Layout>| {
                    ensure!(l.map(|l| (l.size(), l.align())) == Some((0, align_of::<T>())), Announce, "nothing was announced as {l:?}");
                };
                match route {
                    0 | 1 => { let v: Vec<T> = sut(|| e.into_vec()); same(&v, "Vec"); no_block(c0, "Vec"); }
                    2 => { let b = sut(|| box_new_with(e)); same(&b, "Box"); no_block(c0, "Box"); }
                    3 => { let b: Rc<[T]> = sut(|| e.into()); same(&b, "Rc"); sut(|| drop(b)); }
                    4 => { let b = sut(|| arc_pin_with(e)); same(&b, "pinned Arc"); sut(|| drop(b)); }
                    5 => match sut(|| strict_box(e)) {
                        Some(b) => { told(take_told()); same(&b, "strict"); }
                        None => fail!(Value, "nothing was emplaced"),
                    },
                    6 => {
                        let mut v: UnsizedVec<[T]> = UnsizedVec::new();
                        sut(|| v.push_with(e));
                        same(&v[0], "UnsizedVec");
                        let b = sut(|| box_new_with(v.pop_into().unwrap()));
                        same(&b, "popped");
                        sut(|| drop(v));
                    }
                    7 => { told(sut(|| strict_null(e))); no_block(c0, "dropping"); }
                    8 => { sut(|| drop(e)); no_block(c0, "dropping"); }
                    9 => { sut(|| e.forget()); no_block(c0, "forgetting"); }
                    10 => { told(sut(|| strict_never(e))); no_block(c0, "forgetting"); }
                    11 => { let v: Vec<T> = sut(|| e.into()); same(&v, "Vec"); let e: Emplacable<[T], _> = v.into(); let b = sut(|| box_new_with(e)); same(&b, "Box of a Vec"); }
                    _ => { let b = sut(|| rc_pin_with(e)); same(&b, "pinned Rc"); sut(|| drop(b)); }
                }
            }};
        }
        match src {
            0 => go!(Emplacable::<[T], _>::from(vec())),
            1 => go!(Emplacable::<[T], _>::from(vec().into_boxed_slice())),
            2 => { let v = vec(); go!(Emplacable::<[T], _>::from(&*v)) }
            _ => {
                let b = vec().into_boxed_slice();
                passed!([T], (), b, |e| go!(e))
            }
        }
    });
    poll();
    end(since, false);
}

/// Long slices.
fn long_plain(r: &mut Rng) {
    let since = heap::seq();
    let (src, route) = (r.below(5), r.below(11));
    let n = if r.chance(1, 10) { r.range(5000, 70_000) } else { r.range(30, 3000) };
    print(hash_all(&[1013, src as u64, route as u64, size_class(n)]));
    with_plain!(r, T => {
        let n = fit::<T>(n);
        logf!("{n} plain values of size {} align {}, source {src}, destination {route}", size_of::<T>(), align_of::<T>());
        let want: Vec<T> = own(|| (0..n).map(|_| T::draw(r)).collect());
        let fate = calm("long slices", || match src {
            0 => plain_into::<T, _>(elem(|| want.clone()).into(), route, &want),
            1 => plain_into::<T, _>(elem(|| want.clone().into_boxed_slice()).into(), route, &want),
            2 => plain_into::<T, _>((&*want).into(), route, &want),
            3 => {
                let b = elem(|| want.clone().into_boxed_slice());
                passed!([T], Fate, b, |e| plain_into::<T, _>(e, route, &want))
            }
            _ => {
                let it = elem(|| want.clone());
                plain_into::<T, _>(Emplacable::from_iter(it.into_iter().map(|t| -> Emplacable<T, _> { t.into() })), route, &want)
            }
        });
        own(|| drop(want));
        end(since, fate == Some(Fate::Forgotten) || fate.is_none());
    });
}

#[derive(Clone, Copy)]
#[repr(align(64))]
struct Nil;

fn plain(prop: &str, r: &mut Rng) {
    if r.chance(1, 25) {
        return if r.chance(1, 2) { immense::<()>(r) } else { immense::<Nil>(r) };
    }
    if r.chance(1, 100) && !cfg!(miri) {
        return long_plain(r);
    }
    let since = heap::seq();
    let armed = hostile(prop, r) && r.chance(1, 2);
    let (src, comb, route, nn) = (r.below(5), r.below(5), r.below(11), r.below(5));
    print(hash_all(&[1011, src as u64, comb as u64, route as u64, nn as u64, armed.into()]));
    with_plain!(r, T => by_n!(nn, N => {
        logf!("{N} plain values of size {} align {}, source {src}, combined by {comb}, destination {route}", size_of::<T>(), align_of::<T>());
        let want: [T; N] = std::array::from_fn(|_| T::draw(r));
        if armed {
            // panics reach the closures, not the values
            let m = if r.chance(1, 2) { reg::EV_CLOSURE_BEFORE } else { reg::EV_CLOSURE_INSIDE | reg::EV_CLOSURE_AFTER };
            arm(r, m, N);
        }
        let boxed = |t: T| -> Box<T> { elem(|| Box::new(t)) };
        let x = catch(|| {
            macro_rules! items {
                ($f:expr) => {
                    match comb {
                        0 => plain_into::<T, _>(want.map($f).into(), route, &want),
                        1 => {
                            let e: Emplacable<[T; N], _> = want.map($f).into();
                            plain_into::<T, _>(e.unsize(), route, &want)
                        }
                        2 => {
                            let it = elem(|| want.iter().copied().map($f).collect::<Vec<_>>());
                            plain_into::<T, _>(Emplacable::from_iter(it), route, &want)
                        }
                        3 => {
                            let e: Emplacable<[T; N], _> = want.map($f).into();
                            let back: [T; N] = sut(|| e.get());
                            disarm();
                            ensure!(back == want, Value, "stack: got {back:?}, it was {want:?}");
                            count("deliveries", 1);
                            Fate::Delivered
                        }
                        _ => {
                            // one at a time into a Vec
                            let it = want.iter().copied().map($f);
                            let v: Vec<T> = sut(|| it.collect());
                            disarm();
                            ensure!(v == want, Value, "Vec: got {v:?}, it was {want:?}");
                            count("deliveries", 1);
                            sut(|| drop(v));
                            Fate::Delivered
                        }
                    }
                };
            }
            match src {
                0 => items!(|t: T| -> Emplacable<T, _> { boxed(t).into() }),
                1 => items!(|t: T| fused::<T, _>(boxed(t).into())),
                2 => items!(|t: T| from_box(boxed(t))),
                3 => {
                    // whole slices
                    let v: Vec<T> = elem(|| want.to_vec());
                    match comb {
                        0 => plain_into::<T, _>(v.into(), route, &want),
                        1 => plain_into::<T, _>(elem(|| v.into_boxed_slice()).into(), route, &want),
                        2 => plain_into::<T, _>(fused(v.into()), route, &want),
                        3 => {
                            let b = elem(|| v.into_boxed_slice());
                            passed!([T], Fate, b, |e| plain_into::<T, _>(e, route, &want))
                        }
                        _ => {
                            let e: Emplacable<[T], _> = v.as_slice().into();
                            let f = plain_into::<T, _>(e, route, &want);
                            ensure!(v == want, Value, "the borrowed source of an emplacable changed");
                            elem(|| drop(v));
                            f
                        }
                    }
                }
                _ => {
                    // a boxed array
                    let b: Box<[T; N]> = elem(|| Box::new(want));
                    let e: Emplacable<[T; N], _> = b.into();
                    plain_into::<T, _>(e.unsize(), route, &want)
                }
            }
        });
        disarm();
        poll();
        let fate = match x {
            Ok(f) => f,
            Err(Caught::Other(m)) => { fail!(Panic, "plain data: unexpected panic: {m}"); Fate::Panicked }
            Err(_) => {
                ensure!(armed, Panic, "plain data: unexpected panic");
                count("injected_panics", 1);
                let n = heap::live(Who::Sut);
                ensure!(n == 0, Heap, "{n} blocks stay allocated after a panic");
                Fate::Panicked
            }
        };
        // items of an array or iterator that is forgotten are never looked at; nothing else keeps its memory
        let leaks = fate == Fate::Panicked || fate == Fate::Forgotten && src < 3;
        end(since, leaks);
    }));
}

