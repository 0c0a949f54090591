//! Scenarios for emplacables of concrete types.
#![feature(allocator_api, unsized_fn_params, unsize, ptr_metadata)]
#![allow(internal_features, clippy::all, unexpected_cfgs, dead_code, unused_imports, unused_macros)]

include!("../../ec/src/common.rs");

pub const SCENARIOS: [Scenario; 4] = [
    ("arrays of emplacables", arrays),
    ("Vec from emplacables", vecs),
    ("borrowed sources", borrowed),
    ("evaluation order", lazy),
];

fn arrays(prop: &str, r: &mut Rng) {
    let since = heap::seq();
    let armed = hostile(prop, r);
    let (way, route, nn, wrapped) = (r.below(5), r.below(12), r.below(5), r.chance(1, 2));
    if r.chance(1, 60) && !cfg!(miri) {
        return long_arrays(prop, r, route);
    }
    print(hash_all(&[1005, way as u64, route as u64, nn as u64, armed.into(), wrapped.into()]));
    with_tok!(r, T => by_n!(nn, N => {
        logf!("array of {N} items of size {}, way {way}, destination {route}", size_of::<T>());
        let (a, mut want) = tokens::<T, N>();
        if armed {
            arm(r, reg::EV_CLOSURE_INSIDE | reg::EV_CLOSURE_BEFORE | reg::EV_CLOSURE_AFTER | if route > 7 { reg::EV_DROP } else { 0 }, 2 * N);
        }
        let x = catch(|| {
            match way {
                0 => {
                    let es = a.map(|t| -> Emplacable<T, _> { t.into() });
                    slice_into::<T, _>(es.into(), route, &want, true)
                }
                1 => {
                    let es = a.map(|t| fused(t.into()));
                    slice_into::<T, _>(es.into(), route, &want, true)
                }
                2 => {
                    let es = a.map(|t| fused(t.into()));
                    let e: Emplacable<[T; N], _> = es.into();
                    let c0 = heap::counts();
                    let back: [T; N] = sut(|| e.get());
                    disarm();
                    no_block(c0, "emplacing onto the stack");
                    let g = vals(&back, "stack");
                    ensure!(failed() || g == want, Value, "stack: got {g:?}, it was {want:?}");
                    own(|| drop(g));
                    Fate::Delivered
                }
                3 => {
                    let e: Emplacable<[T; N], _> = a.into();
                    slice_into::<T, _>(e.into(), route, &want, true)
                }
                _ => {
                    // an array of arrays, of which the first half is new
                    let (b, w) = tokens::<T, N>();
                    own(|| { let mut w = w; w.append(&mut want); want = w; });
                    let es: [Emplacable<[T; N], _>; 2] = [b.into(), a.into()];
                    let e: Emplacable<[[T; N]; 2], _> = es.into();
                    let b: Box<[[T; N]; 2]> = sut(|| box_new_with(e));
                    disarm();
                    let g = vals(b.as_flattened(), "array of arrays");
                    ensure!(failed() || g == want, Value, "array of arrays: got {g:?}, it was {want:?}");
                    own(|| drop(g));
                    sut(|| drop(b));
                    Fate::Delivered
                }
            }
        });
        let fate = settle(x, armed, "an array").unwrap_or(Fate::Panicked);
        agree(&fate, want.len(), "an array");
        own(|| drop(want));
        end(since, matches!(fate, Fate::Forgotten | Fate::Panicked));
    }));
}

/// The same with more items than fit a byte, or than anyone would write down.
fn long_arrays(prop: &str, r: &mut Rng, route: usize) {
    fn go<T: Tok, const N: usize>(prop: &str, r: &mut Rng, route: usize) {
        let since = heap::seq();
        let armed = hostile(prop, r);
        let way = r.below(3);
        print(hash_all(&[1012, way as u64, route as u64, N as u64, armed.into()]));
        logf!("array of {N} items of size {}, way {way}, destination {route}", size_of::<T>());
        let (v, want) = make::<T>(N);
        if armed {
            arm(r, reg::EV_CLOSURE_INSIDE | reg::EV_CLOSURE_BEFORE | reg::EV_CLOSURE_AFTER, 2 * N);
        }
        let x = catch(|| {
            let mut it = v.into_iter();
            match way {
                0 => {
                    let es: [_; N] = std::array::from_fn(|_| fused(it.next().unwrap().into()));
                    slice_into::<T, _>(es.into(), route, &want, true)
                }
                1 => {
                    let es: [_; N] = std::array::from_fn(|_| fused(it.next().unwrap().into()));
                    let e: Emplacable<[T; N], _> = es.into();
                    slice_into::<T, _>(e.unsize(), route, &want, true)
                }
                _ => {
                    let es: [_; N] = std::array::from_fn(|_| fused(it.next().unwrap().into()));
                    let e: Emplacable<[T; N], _> = es.into();
                    let back: [T; N] = sut(|| e.get());
                    disarm();
                    let g = vals(&back, "stack");
                    ensure!(failed() || g == want, Value, "stack: got {g:?}, it was {want:?}");
                    own(|| drop(g));
                    Fate::Delivered
                }
            }
        });
        let fate = settle(x, armed, "a long array").unwrap_or(Fate::Panicked);
        agree(&fate, want.len(), "a long array");
        own(|| drop(want));
        end(since, matches!(fate, Fate::Forgotten | Fate::Panicked));
    }
    match r.below(4) {
        0 => go::<Q8, 37>(prop, r, route),
        1 => go::<B3, 300>(prop, r, route),
        2 => go::<Hb, 300>(prop, r, route),
        _ => go::<B1, 5000>(prop, r, route),
    }
}

struct Hinted<I> {
    it: I,
    hint: (usize, Option<usize>),
}
impl<I: Iterator> Iterator for Hinted<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        reg::event(reg::EV_ITER);
        self.it.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.hint
    }
}

fn vecs(prop: &str, r: &mut Rng) {
    let since = heap::seq();
    let armed = hostile(prop, r);
    let (n, old) = (r.below(9), r.below(6));
    let (n, old) = (many(r, n), many(r, old));
    let hint = *r.pick(&[(0, None), (n, Some(n)), (n / 2, Some(n)), (n + 5, None), (1000, Some(1000)), (0, Some(0))]);
    let way = r.below(3);
    print(hash_all(&[1006, size_class(n), size_class(old), way as u64, size_class(hint.0), armed.into()]));
    with_tok!(r, T => {
        logf!("a Vec of {old} gets {n} emplacables, hint {hint:?}, way {way}");
        let (v, mut items) = make::<T>(n);
        let (mut base, mut want) = if way == 0 { (Vec::new(), Vec::new()) } else { sut(|| make::<T>(old)) };
        if armed {
            arm(r, reg::EV_ITER | reg::EV_CLOSURE_INSIDE | reg::EV_CLOSURE_BEFORE, n);
        }
        let mut got: Option<Vec<T>> = None;
        let x = catch(|| {
            let it = Hinted { it: v.into_iter().map(|t| fused(t.into())), hint };
            if way == 0 {
                got = Some(sut(|| it.collect()));
            } else {
                sut(|| base.extend(it));
            }
        });
        disarm();
        let v = if way == 0 { got.unwrap_or_default() } else { base };
        let whole = matches!(x, Ok(()));
        match x {
            Err(Caught::Other(m)) => fail!(Panic, "unexpected panic: {m}"),
            Err(_) => ensure!(armed, Panic, "unexpected panic"),
            Ok(()) => {}
        }
        poll();
        let g = vals(&v, "Vec");
        if !failed() {
            own(|| want.append(&mut items));
            if whole {
                ensure!(g == want, Value, "extending gave {g:?}, expected {want:?}");
            } else {
                ensure!(way == 0 || (g.len() >= old && g.len() <= want.len() && g[..] == want[..g.len()]), Value,
                    "a panicking extension left {g:?}, the items were {want:?} ({old} old ones)");
            }
        }
        sut(|| drop(v));
        own(|| { drop(g); drop(want); drop(items); });
        poll();
        if whole {
            ensure!(reg::live_total() == 0, Own, "{} values are still alive", reg::live_total());
        } else {
            let k = heap::live(Who::Sut);
            ensure!(k == 0, Heap, "{k} blocks stay allocated after a panic");
        }
        end(since, !whole);
    });
}

fn borrowed(prop: &str, r: &mut Rng) {
    let since = heap::seq();
    let armed = hostile(prop, r);
    let (n, route) = (*r.pick(&[0usize, 1, 2, 3, 8]), r.below(12));
    let n = many(r, n);
    print(hash_all(&[1008, size_class(n), route as u64, armed.into()]));
    with_tok!(r, T => {
        logf!("{n} borrowed items of size {}, destination {route}", size_of::<T>());
        let (v, want) = make::<T>(n);
        let e: Emplacable<[T], _> = v.as_slice().into();
        let born = reg::totals().0;
        if armed {
            arm(r, reg::EV_CLONE, n);
        }
        let x = catch(|| slice_into::<T, _>(e, route, &want, true));
        let clean = x.is_ok();
        let made = reg::totals().0 - born;
        let fate = settle(x, armed, "a borrowed source").unwrap_or(Fate::Panicked);
        poll();
        if !failed() {
            match fate {
                Fate::Delivered => ensure!(made == n as u64, Own, "{n} items were cloned {made} times"),
                Fate::Dropped | Fate::Forgotten => ensure!(made == 0, Own, "{made} clones were made of a value that was not wanted"),
                Fate::Panicked => ensure!(made < n as u64 + 1, Own, "{n} items were cloned {made} times"),
            }
        }
        if !failed() {
            let live = reg::live_total();
            ensure!(!clean || live == n as i64, Own, "{n} borrowed items, {live} are alive");
            let now = vals(&v, "source");
            ensure!(failed() || now == want, Value, "the borrowed source of an emplacable changed");
            own(|| drop(now));
        }
        if !failed() {
            elem(|| drop(v));
        } else {
            std::mem::forget(v);
        }
        own(|| drop(want));
        poll();
        end(since, !clean);
    });
}

// ---------------------------------------------------------------- order of evaluation

thread_local! {
    static ORDER: std::cell::RefCell<Vec<u64>> = const { std::cell::RefCell::new(Vec::new()) };
}
fn telling<T: Tok>(t: T) -> Emplacable<T, impl EmplacableFn<T>> {
    let f = Emplacable::<T, _>::from(t).into_fn();
    // SAFETY: forwards to a well-behaved closure
    unsafe {
        Emplacable::from_fn(move |em: &mut Emplacer<'_, T>| {
            let ef = em.into_fn();
            let mut ef2 = |l: std::alloc::Layout, m: (), inner: &mut dyn FnMut(*mut std::marker::PhantomData<T>)| {
                ensure!(l == std::alloc::Layout::new::<T>(), Announce, "an item was announced as {l:?}");
                ef(l, m, &mut |p| {
                    inner(p);
                    if !p.is_null() {
                        ensure!(p.addr() % align_of::<T>() == 0, Align, "an item was placed at {p:?}");
                        // SAFETY: it was just written
                        let v = value(unsafe { &*p.cast::<T>() });
                        own(|| ORDER.with(|o| o.borrow_mut().push(v)));
                    }
                });
            };
            f(Emplacer::from_fn(&mut ef2));
        })
    }
}
fn lazy(_: &str, r: &mut Rng) {
    let since = heap::seq();
    let (way, route, n) = (r.below(3), r.below(12), r.below(9));
    let n = many(r, n);
    print(hash_all(&[1009, way as u64, route as u64, size_class(n)]));
    own(|| ORDER.with(|o| o.borrow_mut().clear()));
    with_tok!(r, T => {
        logf!("{n} items evaluated when emplaced, way {way}, destination {route}");
        let told = || ORDER.with(|o| own(|| o.borrow().clone()));
        let not_yet = || { let t = told(); ensure!(t.is_empty(), Value, "{} items were evaluated before they were emplaced", t.len()); own(|| drop(t)); };
        let mut want = Vec::new();
        let fate = calm("lazy", || match way {
            0 => {
                let (v, w) = make::<T>(n);
                want = w;
                let e = Emplacable::from_iter(elem(|| v.into_iter().map(telling).collect::<Vec<_>>()));
                not_yet();
                slice_into::<T, _>(e, route, &want, true)
            }
            1 => {
                let (a, w) = tokens::<T, 3>();
                want = w;
                let e: Emplacable<[T], _> = a.map(telling).into();
                not_yet();
                slice_into::<T, _>(e, route, &want, true)
            }
            _ => {
                let (a, w) = tokens::<T, 5>();
                want = w;
                let e: Emplacable<[T; 5], _> = a.map(telling).into();
                not_yet();
                let e: Emplacable<[T], _> = e.unsize();
                slice_into::<T, _>(e, route, &want, true)
            }
        });
        let t = told();
        if let (Some(f), false) = (&fate, failed()) {
            match f {
                Fate::Delivered => ensure!(t == want, Value, "the items {want:?} were emplaced in the order {t:?}"),
                _ => ensure!(t.is_empty(), Value, "{} items were evaluated though nothing was emplaced", t.len()),
            }
            agree(f, want.len(), "lazy items");
        }
        own(|| { drop(t); drop(want); ORDER.with(|o| *o.borrow_mut() = Vec::new()); });
        end(since, !matches!(fate, Some(Fate::Delivered | Fate::Dropped)));
    });
}

