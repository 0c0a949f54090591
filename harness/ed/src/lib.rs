//! Scenarios for emplacables of concrete types.
#![feature(allocator_api, unsized_fn_params, unsize, ptr_metadata)]
#![allow(internal_features, clippy::all, unexpected_cfgs, dead_code, unused_imports, unused_macros)]

include!("../../ec/src/common.rs");

pub const SCENARIOS: [Scenario; 2] = [
    ("owned sources", owned),
    ("iterators that lie about their length", liars),
];

fn owned(prop: &str, r: &mut Rng) {
    let since = heap::seq();
    let armed = hostile(prop, r);
    let (src, route) = (r.below(5), r.below(12));
    let n = *r.pick(&[0usize, 1, 2, 3, 7, 20]);
    let n = many(r, n);
    let extra = *r.pick(&[0usize, 0, 1, 3, 17]);
    print(hash_all(&[1003, src as u64, route as u64, size_class(n), extra as u64, armed.into()]));
    with_tok!(r, T => {
        let n = fit::<T>(n);
        logf!("{n} items of size {} align {}, room for {extra} more, source {src}, destination {route}", size_of::<T>(), align_of::<T>());
        let (mut v, want) = make::<T>(n);
        if extra > 0 {
            elem(|| v.reserve_exact(extra));
        }
        if armed {
            arm(r, if route > 7 { reg::EV_DROP } else { reg::EV_CLOSURE_INSIDE }, n);
            if r.chance(1, 4) && route < 8 {
                reg::fuse_off();
                heap::fail_nth(1, false, 0);
            }
        }
        let x = catch(|| match src {
            0 => slice_into::<T, _>(v.into(), route, &want, true),
            1 => slice_into::<T, _>(elem(|| v.into_boxed_slice()).into(), route, &want, true),
            2 => slice_into::<T, _>(fused(v.into()), route, &want, true),
            3 => {
                let b = elem(|| v.into_boxed_slice());
                passed!([T], Fate, b, |e| slice_into::<T, _>(e, route, &want, true))
            }
            _ => slice_into::<T, _>(from_box(elem(|| v.into_boxed_slice())), route, &want, true),
        });
        let fate = settle(x, armed, "an owned source").unwrap_or(Fate::Panicked);
        agree(&fate, n, "an owned source");
        // the memory of a consumed source is released even when its values are forgotten
        if fate == Fate::Forgotten && src < 4 && src != 3 && T::CLS != Hb::CLS && !failed() {
            let l = heap::live_since(since);
            ensure!(l.is_empty(), Heap, "forgetting values left {} blocks of their source allocated", l.len());
        }
        own(|| drop(want));
        end(since, matches!(fate, Fate::Forgotten | Fate::Panicked));
    });
}

/// An iterator with a length of its own invention.
struct Liar<I> {
    it: I,
    claim: usize,
    calls: Cell<usize>,
    drift: usize,
    hint: (usize, Option<usize>),
}
impl<I: Iterator> Iterator for Liar<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        reg::event(reg::EV_ITER);
        self.it.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.hint
    }
}
impl<I: Iterator> ExactSizeIterator for Liar<I> {
    fn len(&self) -> usize {
        let k = self.calls.get();
        self.calls.set(k + 1);
        self.claim.wrapping_add(k * self.drift)
    }
}

fn liars(prop: &str, r: &mut Rng) {
    let since = heap::seq();
    let armed = hostile(prop, r);
    let n = *r.pick(&[0usize, 1, 2, 3, 5, 12]);
    let n = many(r, n);
    let claim = match r.below(9) {
        0 | 1 => n,
        2 => n + 1,
        3 => n.saturating_sub(1),
        4 => r.below(n + 1),
        5 => n + r.below(9),
        6 => usize::MAX - r.below(3),
        7 => isize::MAX as usize - r.below(20),
        _ => *r.pick(&[0, 1 << 20, usize::MAX >> 31, (isize::MAX as usize) / 8 + 1, usize::MAX / 16 + 2, usize::MAX / 8 + 1]),
    };
    let drift = *r.pick(&[0usize, 0, 0, 1, usize::MAX]);
    let hint = *r.pick(&[(claim, Some(claim)), (0, None), (usize::MAX, None), (claim, None), (0, Some(0))]);
    let route = r.below(12);
    let wrapped = r.chance(1, 3);
    print(hash_all(&[1004, size_class(n), size_class(claim), u64::from(claim > n) * 2 + u64::from(claim < n), route as u64, armed.into()]));
    with_tok!(r, T => {
        logf!("{n} items of size {}, announced as {claim} (drift {drift}), destination {route}", size_of::<T>());
        let (v, all) = make::<T>(n);
        if armed {
            arm(r, reg::EV_ITER | reg::EV_CLOSURE_INSIDE | reg::EV_CLOSURE_BEFORE, n);
        }
        let born = reg::totals().0;
        let made = Cell::new(false);
        let want: Vec<u64> = own(|| all.iter().copied().take(claim).collect());
        let x = catch(|| {
            let it = v.into_iter();
            macro_rules! go {
                ($f:expr) => {{
                    let e = sut(|| Emplacable::from_iter(Liar { it: it.map($f), claim, calls: Cell::new(0), drift, hint }));
                    made.set(true);
                    if claim > n {
                        // no destination may be given something that does not exist
                        match route {
                            0..=7 => { let v: Box<[T]> = sut(|| box_new_with(e)); Err(v.len()) }
                            8 => { sut(|| strict_null(e)); disarm(); Ok(Fate::Dropped) }
                            9 => { sut(|| drop(e)); disarm(); Ok(Fate::Dropped) }
                            10 => { sut(|| e.forget()); disarm(); Ok(Fate::Forgotten) }
                            _ => { sut(|| strict_never(e)); disarm(); Ok(Fate::Forgotten) }
                        }
                    } else if matches!(route, 8 | 9) {
                        // dropping drops all there are
                        sut(|| drop(e));
                        disarm();
                        Ok(Fate::Dropped)
                    } else {
                        Ok(slice_into::<T, _>(e, route, &want, true))
                    }
                }};
            }
            if wrapped { go!(|t| fused(Emplacable::from(t))) } else { go!(|t: T| -> Emplacable<T, _> { t.into() }) }
        });
        disarm();
        poll();
        let fate = match x {
            Ok(Ok(f)) => f,
            Ok(Err(k)) => {
                fail!(Value, "{n} items announced as {claim} gave a slice of {k}");
                Fate::Panicked
            }
            Err(_) => {
                ensure!(armed || claim != n, Panic, "an honest iterator of {n} items made the operation panic");
                // too few are allowed to be refused as well
                let k = heap::live(Who::Sut);
                ensure!(k == 0, Heap, "{k} blocks stay allocated after a refusal");
                count("refusals", 1);
                Fate::Panicked
            }
        };
        ensure!(reg::totals().0 == born, Own, "values appeared from nowhere");
        if !failed() {
            if fate == Fate::Forgotten {
                agree(&fate, n, "from_iter");
            } else {
                agree(&fate, want.len(), "from_iter");
            }
        }
        own(|| { drop(want); drop(all); });
        end(since, matches!(fate, Fate::Forgotten | Fate::Panicked));
    });
}
