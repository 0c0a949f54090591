//! V13: collecting, extending, and the list macros.
use crate::Scenario;
use emplacable::{Emplacable, EmplacableFn};
use mon::ctx::*;
use mon::emp::*;
use mon::engine::Watched;
use mon::heap::{self, elem, own, sut};
use mon::kinds::Obj;
use mon::reg;
use mon::rng::Rng;
use mon::toks::*;
use unsized_vec::{unsize_vec, unsized_vec, UnsizedVec};

pub const ALL: &[Scenario] = &[
    ("str", |_, r| bulk::<str>(r)),
    ("slices", |_, r| bulk::<[Q8]>(r)),
    ("slices of zero-sized values", |_, r| bulk::<[Z16]>(r)),
    ("sized", |_, r| bulk::<Hb>(r)),
    ("zero-sized", |_, r| bulk::<Z1>(r)),
    ("trait objects", |_, r| bulk::<dyn Obj>(r)),
    ("trait objects", |_, r| bulk::<dyn Obj>(r)),
    ("macros", macros),
];

pub trait It: 'static {
    fn draw(r: &mut Rng) -> Box<Self>;
    fn see(&self) -> Vec<u64>;
}
fn sees<T: Tok>(t: &[T]) -> Vec<u64> {
    if t.as_ptr().addr() % align_of::<T>() != 0 || t.len() > 1 << 20 {
        fail!(Align, "a slice of {} at {:p}", t.len(), t.as_ptr());
        return Vec::new();
    }
    own(|| std::iter::once(t.len() as u64).chain(t.iter().map(value)).collect())
}
impl It for str {
    fn draw(r: &mut Rng) -> Box<str> {
        (0..r.below(6)).map(|_| *r.pick(&['a', 'é', '🦀'])).collect::<String>().into()
    }
    fn see(&self) -> Vec<u64> {
        own(|| self.bytes().map(u64::from).collect())
    }
}
impl<T: Tok> It for [T] {
    fn draw(r: &mut Rng) -> Box<[T]> {
        (0..r.below(5)).map(|_| T::fresh()).collect()
    }
    fn see(&self) -> Vec<u64> {
        sees(self)
    }
}
impl It for Hb {
    fn draw(_: &mut Rng) -> Box<Hb> {
        Box::new(Hb::fresh())
    }
    fn see(&self) -> Vec<u64> {
        sees(std::slice::from_ref(self))
    }
}
impl It for Z1 {
    fn draw(_: &mut Rng) -> Box<Z1> {
        Box::new(Z1::fresh())
    }
    fn see(&self) -> Vec<u64> {
        sees(std::slice::from_ref(self))
    }
}
impl It for dyn Obj {
    fn draw(r: &mut Rng) -> Box<dyn Obj> {
        match r.below(6) {
            0 => Box::new(Z16::fresh()),
            1 => Box::new(B3::fresh()),
            2 => Box::new(Hb::fresh()),
            3 => Box::new(L64::fresh()),
            4 => Box::new(B37::fresh()),
            _ => Box::new(D4::fresh()),
        }
    }
    fn see(&self) -> Vec<u64> {
        let (a, al) = (std::ptr::from_ref(self).cast::<()>().addr(), align_of_val(self));
        if a % al != 0 {
            fail!(Align, "an element at {a:#x} of alignment {al}");
            return Vec::new();
        }
        own(|| vec![u64::from(self.cls()), self.value()])
    }
}

/// An iterator that announces what it likes, and may go on after its end.
struct Liar<I> {
    it: I,
    hint: (usize, Option<usize>),
    shrinks: bool,
    stop_at: usize,
    given: usize,
}
impl<I: Iterator> Iterator for Liar<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.given += 1;
        if self.given - 1 == self.stop_at {
            return None;
        }
        if self.shrinks {
            self.hint.0 = self.hint.0.saturating_sub(1);
        }
        self.it.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.hint
    }
}

fn all<T: It + ?Sized>(v: &UnsizedVec<T>) -> Vec<Vec<u64>> {
    let mut m = own(Vec::new);
    for i in 0..v.len() {
        let s = v[i].see();
        own(|| m.push(s));
    }
    m
}

fn bulk<T: It + ?Sized>(r: &mut Rng) {
    let since = heap::seq();
    let old = r.below(4);
    let n = match r.below(10) {
        0 => r.range(20, 60),
        1 => 0,
        _ => r.range(1, 8),
    };
    let hint = match r.below(12) {
        0 => (0, None),
        1 => (0, Some(0)),
        2 => (n, None),
        3 => (n + r.below(1000), None),
        4 => (n + r.below(100), Some(1)),
        5 => (n / 2, Some(n / 2)),
        6 => (n.saturating_sub(1), Some(n)),
        7 => (1, None),
        8 => (n, Some(usize::MAX)),
        9 => (0, Some(usize::MAX)),
        10 => (n / 2, Some(n + r.below(1 << 20))),
        _ => (n, Some(n)),
    };
    let stop_at = if r.chance(1, 4) { r.below(n + 1) } else { usize::MAX };
    let shrinks = r.chance(1, 2);
    let lazy = r.chance(1, 2);
    let how = r.below(4);
    let fuse = if r.chance(1, 2) { Some((r.range(1, n + 2) as i64, *r.pick(&[reg::EV_ITER, reg::EV_CLOSURE_BEFORE, reg::EV_CLOSURE_INSIDE]))) } else { None };
    print(hash_all(&[9100, old as u64, size_class(n), u64::from(hint.0 > n), u64::from(hint.0 < n), u64::from(lazy), how as u64, fuse.map_or(0, |f| u64::from(f.1)), std::any::type_name::<T>().len() as u64]));
    logf!("{n} items onto {old}, announced as {hint:?}, ending at {stop_at}, lazy {lazy}, way {how}, a panic {fuse:?}");
    let mut leaks = false;
    calm("bulk", || {
        let mut v: UnsizedVec<T> = UnsizedVec::new();
        if how != 0 {
            for _ in 0..old {
                let b = elem(|| T::draw(r));
                sut(|| push_val!(v, b));
            }
        }
        let before = all(&v);
        let mut coming = own(Vec::new);
        let mut rng = r.clone();
        let mut boxes: Vec<Box<T>> = elem(Vec::new);
        for _ in 0..n {
            let b = elem(|| T::draw(&mut rng));
            let s = b.see();
            own(|| coming.push(s));
            elem(|| boxes.push(b));
        }
        own(|| coming.truncate(stop_at.min(n)));
        if let Some((k, mask)) = fuse {
            reg::fuse_set(k, mask);
        }
        let source = Liar { it: Watched { it: boxes.into_iter() }, hint, shrinks, stop_at, given: 0 };
        fn emp<T: ?Sized>(b: Box<T>, wrap: bool) -> Emplacable<T, impl EmplacableFn<T>> {
            let _ = wrap;
            fused(from_box(b))
        }
        let res = catch(|| {
            sut(|| match how {
                0 => v = source.map(|b| emp(b, lazy)).collect(),
                1 => v.extend(source.map(|b| emp(b, lazy))),
                2 => {
                    let mut it = source.map(|b| emp(b, lazy));
                    v.extend(&mut it);
                    drop(it);
                }
                _ => {
                    // all at once, from a list of emplacables
                    let mut list = Vec::new();
                    for b in source {
                        list.push(emp(b, lazy));
                    }
                    v.extend(list);
                }
            })
        });
        let fired = reg::fuse_fired();
        reg::fuse_off();
        let ok = match res {
            Ok(()) => {
                ensure!(fired == 0, Panic, "a panic in user code was swallowed");
                true
            }
            Err(Caught::Injected) => {
                count("injected_panics", 1);
                false
            }
            Err(e) => {
                fail!(Panic, "unexpected panic {e:?}");
                false
            }
        };
        if failed() {
            std::mem::forget(v);
            return;
        }
        let got = all(&v);
        let want: Vec<Vec<u64>> = own(|| before.iter().chain(coming.iter()).cloned().collect());
        if ok {
            ensure!(got == want, Model, "the vec holds {got:?}, expected {want:?}");
        } else {
            // what was added so far stays
            let (k, mask) = fuse.unwrap();
            let added = if how == 0 {
                0
            } else if how == 3 && mask == reg::EV_ITER {
                before.len()
            } else {
                before.len() + k as usize - 1
            };
            if how == 0 {
                ensure!(got.is_empty(), Model, "collecting panicked, and left {got:?}");
            } else {
                ensure!(got.len() == added && got == want[..added.min(want.len())], Model,
                    "after a panic at item {k} the vec holds {} elements, expected {added}: {got:?} of {want:?}", got.len());
            }
            leaks = mask == reg::EV_CLOSURE_INSIDE || mask == reg::EV_CLOSURE_BEFORE;
        }
        count("bulk_items", coming.len() as u64);
        own(|| drop((got, want, before, coming)));
        sut(|| drop(v));
    });
    count("checks", 1);
    poll();
    // the item that panicked may be lost, no other
    if leaks && !failed() {
        let l = heap::live(heap::Who::Sut);
        ensure!(l == 0, Heap, "{l} blocks of the vec are left after a panic");
    }
    expect_clean(since, leaks);
    if leaks {
        reg::reset();
        heap::abandon();
    }
}

fn macros(_: &str, r: &mut Rng) {
    let since = heap::seq();
    let k = r.below(8);
    let boom = r.chance(1, 3);
    let at = r.range(1, 4) as i64;
    print(hash_all(&[9101, k as u64, u64::from(boom), at as u64]));
    logf!("macro form {k}, a panic at {at}: {boom}");
    if boom {
        reg::fuse_set(at, reg::EV_BODY);
    }
    let order = own(|| std::cell::RefCell::new(Vec::<u64>::new()));
    fn mk<T: Tok>(order: &std::cell::RefCell<Vec<u64>>) -> T {
        reg::event(reg::EV_BODY);
        let t = T::fresh();
        let v = value(&t);
        own(|| order.borrow_mut().push(v));
        t
    }
    let (mut got, want): (Vec<u64>, Vec<u64>);
    let res = catch(|| {
        sut(|| {
            let o = &order;
            let got: Vec<u64> = match k {
                0 => {
                    let v: UnsizedVec<Q8> = unsized_vec![];
                    let w: UnsizedVec<dyn Obj> = unsize_vec![];
                    ensure!(v.is_empty() && w.is_empty(), Model, "an empty list is not empty");
                    own(Vec::new)
                }
                1 => {
                    let v: UnsizedVec<Hb> = unsized_vec![mk::<Hb>(o), mk::<Hb>(o), mk::<Hb>(o)];
                    own(|| v.iter().map(value).collect())
                }
                2 => {
                    let v: UnsizedVec<Hb> = unsized_vec![mk::<Hb>(o), Emplacable::from(mk::<Hb>(o)), mk::<Hb>(o), Emplacable::from(mk::<Hb>(o)),];
                    own(|| v.iter().map(value).collect())
                }
                3 => {
                    let v: UnsizedVec<dyn Obj> = unsize_vec![mk::<Q8>(o), mk::<Hb>(o), mk::<L64>(o), mk::<X48>(o),];
                    own(|| v.iter().map(|t| t.value()).collect())
                }
                4 => {
                    let v: UnsizedVec<[Q8]> = unsize_vec![[mk(o)], [], [mk(o), mk(o)]];
                    ensure!(v.len() == 3, Model, "a list of 3 has {}", v.len());
                    own(|| v.iter().flat_map(|t| t.iter().map(value)).collect())
                }
                #[cfg(not(miri))]
                5 => {
                    let v: UnsizedVec<[Hb]> = unsized_vec![emplacable::unsize!([mk(o)], ([Hb; 1]) -> [Hb]), emplacable::unsize!([mk(o), mk(o)], ([Hb; 2]) -> [Hb])];
                    own(|| v.iter().flat_map(|t| t.iter().map(value)).collect())
                }
                #[cfg(not(miri))]
                6 => {
                    let b: Box<dyn Obj> = Box::new(mk::<Q24>(o));
                    let v: UnsizedVec<dyn Obj> = unsized_vec![*b, from_box(Box::new(mk::<Hb>(o)) as Box<dyn Obj>)];
                    own(|| v.iter().map(|t| t.value()).collect())
                }
                _ => {
                    // taken from another vec
                    let mut w: UnsizedVec<Hb> = unsized_vec![mk::<Hb>(o), mk::<Hb>(o), mk::<Hb>(o)];
                    let v: UnsizedVec<Hb> = unsized_vec![w.remove_into(0), mk::<Hb>(o)];
                    own(|| {
                        let mut g: Vec<u64> = v.iter().map(value).collect();
                        let rest: Vec<u64> = w.iter().map(value).collect();
                        g.splice(1..1, rest);
                        g
                    })
                }
            };
            got
        })
    });
    let fired = reg::fuse_fired() != 0;
    reg::fuse_off();
    poll();
    match res {
        Ok(g) => {
            ensure!(!fired, Panic, "a panic in user code was swallowed");
            got = g;
            want = own(|| order.borrow().clone());
            ensure!(got == want, Model, "macro form {k} gave {got:?}, the values were made in the order {want:?}");
            own(|| {
                got.clear();
                drop((got, want));
            });
        }
        Err(Caught::Injected) => count("injected_panics", 1),
        Err(e) => fail!(Panic, "macro form {k}: unexpected panic {e:?}"),
    }
    count("macros", 1);
    count("checks", 1);
    own(|| drop(order));
    poll();
    expect_clean(since, false);
}
