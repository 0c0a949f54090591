//! Every destination a value can be emplaced into, watched.

use crate::ctx::*;
use crate::emp::*;
use crate::engine::{addr_of, look};
use crate::heap::{self, elem, own, sut, Who};
use crate::kinds::*;
use crate::reg;
use crate::rng::Rng;
use emplacable::*;
use std::alloc::Layout;
use std::marker::Unsize;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::Arc;
use unsized_vec::UnsizedVec;

/// Where the value ended up.
pub enum Got<T: ?Sized> {
    Nothing,
    Box(Box<T>),
    Pin(Pin<Box<T>>),
    Rc(Rc<T>),
    RcPin(Pin<Rc<T>>),
    Arc(Arc<T>),
    ArcPin(Pin<Arc<T>>),
    Vec(UnsizedVec<T>),
    Dropped,
    Forgotten,
}

pub const ROUTES: [&str; 17] = [
    "box_new_with", "box_pin_with", "rc_new_with", "Rc::from", "rc_pin_with", "arc_new_with", "Arc::from", "arc_pin_with",
    "strict emplacer", "null emplacer", "silent emplacer", "drop", "forget", "UnsizedVec::push_with", "UnsizedVec::insert_with",
    "round trip through a box", "into_fn and from_fn",
];
pub const BY_VALUE: [&str; 9] = [
    "box_new", "box_pin", "rc_new", "rc_pin", "arc_new", "arc_pin", "with_emplacable_for", "UnsizedVec::push", "drop",
];

/// A consumer of one value.
pub struct Dest<'a, T: ?Sized> {
    pub got: &'a mut Got<T>,
    pub route: usize,
    pub by_value: usize,
    /// wrap emplacables with panicking events
    pub fused: bool,
    pub n: &'a mut u32,
}

#[inline(never)]
fn deliver<T: ?Sized + 'static, F: EmplacableFn<T>>(e: Emplacable<T, F>, route: usize) -> Got<T> {
    match route {
        0 => Got::Box(box_new_with(e)),
        1 => Got::Pin(box_pin_with(e)),
        2 => Got::Rc(rc_new_with(e)),
        3 => Got::Rc(e.into()),
        4 => Got::RcPin(rc_pin_with(e)),
        5 => Got::Arc(arc_new_with(e)),
        6 => Got::Arc(e.into()),
        7 => Got::ArcPin(arc_pin_with(e)),
        8 => match strict_box(e) {
            Some(b) => Got::Box(b),
            None => Got::Nothing,
        },
        9 => {
            strict_null(e);
            Got::Dropped
        }
        10 => {
            strict_never(e);
            Got::Forgotten
        }
        11 => {
            drop(e);
            Got::Dropped
        }
        12 => {
            e.forget();
            Got::Forgotten
        }
        13 => {
            let mut v = UnsizedVec::new();
            v.push_with(e);
            Got::Vec(v)
        }
        14 => {
            let mut v = UnsizedVec::with_capacity(1);
            v.insert_with(0, e);
            Got::Vec(v)
        }
        15 => {
            // this box is a source, not a destination
            let b = elem(|| box_new_with(e));
            let e2: Emplacable<T, _> = b.into();
            Got::Box(box_new_with(e2))
        }
        _ => {
            // SAFETY: the closure comes from an emplacable
            let e2: Emplacable<T, F> = unsafe { Emplacable::from_fn(e.into_fn()) };
            Got::Box(box_new_with(e2))
        }
    }
}

impl<T: ?Sized + 'static> Sinker<T> for Dest<'_, T> {
    #[cfg(miri)]
    fn val(self, _: T) {
        unreachable!()
    }
    #[cfg(miri)]
    fn sized(self, x: T)
    where
        T: Sized,
    {
        self.emp(x.into())
    }
    #[cfg(not(miri))]
    #[inline(never)]
    fn val(self, x: T) {
        *self.n += 1;
        logf!("by value: {}", BY_VALUE[self.by_value]);
        *self.got = match self.by_value {
            0 => Got::Box(box_new(x)),
            1 => Got::Pin(box_pin(x)),
            2 => Got::Rc(rc_new(x)),
            3 => Got::RcPin(rc_pin(x)),
            4 => Got::Arc(arc_new(x)),
            5 => Got::ArcPin(arc_pin(x)),
            6 => {
                let route = self.route;
                let fused_ = self.fused;
                with_emplacable_for::<T, _, Got<T>>(x, |e| {
                    reg::event(reg::EV_BODY);
                    let g = if fused_ { deliver(fused(e), route) } else { deliver(e, route) };
                    reg::event(reg::EV_BODY);
                    g
                })
            }
            7 => {
                let mut v = UnsizedVec::new();
                v.push(x);
                Got::Vec(v)
            }
            _ => Got::Dropped,
        };
    }
    fn emp<F: EmplacableFn<T>>(self, e: Emplacable<T, F>) {
        *self.n += 1;
        logf!("into: {}{}", ROUTES[self.route], if self.fused { " (fused)" } else { "" });
        *self.got = if self.fused { deliver(fused(e), self.route) } else { deliver(e, self.route) };
    }
    fn unsize<S: Unsize<T>>(self, s: S) {
        if self.by_value & 1 == 0 && !cfg!(miri) {
            #[cfg(not(miri))]
            self.val(unsize!(s, (S) -> T));
        } else {
            let e: Emplacable<S, _> = s.into();
            self.emp(e.unsize());
        }
    }
}

/// The block a box of `t` must live in.
fn exact_block<T: ?Sized>(t: &T, what: &str) {
    let (a, s, al) = (addr_of(t), size_of_val(t), align_of_val(t));
    if s == 0 {
        return;
    }
    match heap::block_of(a) {
        Some((base, b)) => ensure!(base == a && b.size == s && b.align == al, Announce,
            "{what}: a value of size {s} align {al} at {a:#x} lives in a block {base:#x} of size {} align {}", b.size, b.align),
        None => fail!(Heap, "{what}: the value at {a:#x} is in no live block"),
    }
}

fn check_value<K: Kind>(t: &K::T, d: &Desc, what: &str) {
    if let Some(o) = look::<K>(t, what) {
        ensure!(o == *d, Value, "{what}: delivered {o:?}, it was {d:?}");
    }
    count("deliveries", 1);
}

/// A vec with one element that is going to be handed over, and its neighbours.
struct Host<K: Kind> {
    v: UnsizedVec<K::T>,
    /// the neighbours, in order
    rest: Vec<Desc>,
    at: usize,
    desc: Desc,
}
impl<K: Kind> Host<K> {
    fn new(r: &mut Rng, p: &Prof, b: Box<K::T>, last: bool) -> Self {
        let mut v: UnsizedVec<K::T> = UnsizedVec::new();
        let mut rest = Vec::new();
        let desc = own(|| K::obs(&b));
        let (before, after) = (r.below(4), if last { 0 } else { r.below(4) });
        for _ in 0..before {
            let b = K::mk(r, p);
            own(|| rest.push(K::obs(&b)));
            sut(|| v.push_with(Emplacable::from(b)));
        }
        let at = v.len();
        sut(|| v.push_with(Emplacable::from(b)));
        for _ in 0..after {
            let b = K::mk(r, p);
            own(|| rest.push(K::obs(&b)));
            sut(|| v.push_with(Emplacable::from(b)));
        }
        Host { v, rest, at, desc }
    }
    fn tracked(&self) -> i64 {
        self.rest.iter().map(|d| K::tracked(d)).sum()
    }
    /// The neighbours are as they were.
    fn check(&self, panicked: bool) {
        let n = self.v.len();
        if panicked {
            // the element may have stayed
            ensure!(n <= self.rest.len() + 1, Model, "a vec of {} holds {n} after a panic", self.rest.len() + 1);
            for i in 0..n {
                if failed() {
                    return;
                }
                if let Some(t) = self.v.get(i) {
                    look::<K>(t, "a neighbour");
                }
            }
            return;
        }
        ensure!(n == self.rest.len(), Model, "a vec of {} holds {n} after one was handed over", self.rest.len() + 1);
        for (i, d) in self.rest.iter().enumerate() {
            if failed() {
                return;
            }
            match self.v.get(i) {
                Some(t) => {
                    if let Some(o) = look::<K>(t, "a neighbour") {
                        ensure!(o == *d, Model, "a neighbour became {o:?}, it was {d:?}");
                        own(|| drop(o));
                    }
                }
                None => fail!(Model, "element {i} of {n} is missing"),
            }
        }
    }
    fn leave(self, panicked: bool) {
        self.check(panicked);
        poll();
        if failed() {
            std::mem::forget(self);
            return;
        }
        let Host { v, rest, desc, .. } = self;
        calm("dropping a vec", || sut(|| drop(v)));
        own(|| { drop(rest); drop(desc); });
    }
}

/// One value, from one source to one destination.
pub fn emplacing<K: Kind>(prop: &str, r: &mut Rng, kind_no: u64)
where
{
    let p = Prof::draw(r);
    let since = heap::seq();
    let rounds = r.range(1, 4);
    for _ in 0..rounds {
        one::<K>(prop, r, &p, kind_no, since);
        if failed() {
            break;
        }
    }
    own(|| drop(p));
}

fn one<K: Kind>(prop: &str, r: &mut Rng, p: &Prof, kind_no: u64, since: u64) {
    let hostile = match prop {
        "E05" => r.chance(3, 4),
        _ => false,
    };
    let oom = hostile && r.chance(1, 5);
    let route = match prop {
        "E02" if r.chance(1, 2) => r.range(8, 12),
        _ => r.below(ROUTES.len()),
    };
    let by_value = r.below(BY_VALUE.len());
    let wrap = hostile && r.chance(1, 2);
    let src = r.below(K::SPECIALS + 7);
    let mut got: Got<K::T> = Got::Nothing;
    let mut n = 0u32;
    let mask = *r.pick(&[u32::MAX, u32::MAX, reg::EV_CLONE, reg::EV_CLOSURE_INSIDE, reg::EV_CLOSURE_AFTER | reg::EV_CLOSURE_BEFORE, reg::EV_BODY, reg::EV_DROP, reg::EV_EMPLACER]);
    let nth = r.range(1, 5) as i64;
    logf!("kind {}, source {src}", K::NAME);
    let made;
    let c0;
    let base_live = reg::live_total();
    let sut0 = heap::live(Who::Sut);
    // the handle of a pop or a removal is an emplacable, too
    let mut host: Option<Host<K>> = None;
    let mut expect = None;
    let (b, special) = if src < K::SPECIALS {
        (None, true)
    } else {
        let b = K::mk(r, p);
        expect = Some(Layout::for_value(&*b));
        if src < K::SPECIALS + 4 {
            (Some(b), false)
        } else {
            match calm("filling a vec", || Host::<K>::new(r, p, b, src - K::SPECIALS == 4)) {
                Some(h) => host = Some(h),
                None => return,
            }
            (None, false)
        }
    };
    let sut1 = heap::live(Who::Sut);
    let others = host.as_ref().map_or(0, |h| h.tracked());
    take_told();
    if hostile {
        if oom {
            heap::fail_nth(r.range(1, 3) as u64, r.chance(1, 2), 0);
        } else {
            logf!("a panic at event {nth} of kinds {mask:#x}");
            reg::fuse_set(nth, mask);
        }
    }
    c0 = heap::counts();
    let res = {
        let got = &mut got;
        let n = &mut n;
        let dest = Dest { got, route, by_value, fused: wrap, n };
        if special {
            let mut r2 = r.clone();
            let x = catch(|| K::special(src, &mut r2, p, dest));
            *r = r2;
            x
        } else if let Some(h) = &mut host {
            let d = h.desc.clone();
            let at = h.at;
            logf!("element {at} of {}: {d:?}", h.v.len());
            let v = &mut h.v;
            catch(|| {
                match src - K::SPECIALS {
                    4 => match sut(|| v.pop_into()) {
                        Some(e) => sut(|| dest.emp(e)),
                        None => fail!(Value, "popping found nothing"),
                    },
                    5 => sut(|| dest.emp(v.remove_into(at))),
                    _ => sut(|| dest.emp(fused(v.remove_into(at)))),
                }
                d
            })
        } else {
            let b = b.unwrap();
            let d = K::obs(&b);
            let way = src - K::SPECIALS;
            logf!("a box, way {way}: {d:?}");
            catch(|| {
                match way {
                    0 => sut(|| dest.emp(b.into())),
                    1 => sut(|| dest.emp(from_box(b))),
                    2 => sut(|| by_value!(dest, b)),
                    _ => sut(|| dest.emp(fused(fused(b.into())))),
                }
                d
            })
        }
    };
    let c1 = heap::counts();
    reg::fuse_off();
    heap::fail_off();
    poll();
    if failed() {
        return forget_got(got);
    }
    match res {
        Err(Caught::Other(m)) => {
            fail!(Panic, "unexpected panic: {m}");
            return forget_got(got);
        }
        Err(_) => {
            if !hostile {
                fail!(Panic, "unexpected panic");
                return forget_got(got);
            }
            count("injected_panics", 1);
            logf!("it panicked");
            // a value delivered before the panic is a value like any other
            if !matches!(got, Got::Nothing) {
                if calm("dropping", || sut(|| drop(std::mem::replace(&mut got, Got::Nothing)))).is_none() {
                    return;
                }
                poll();
            }
            // the destination is gone
            if host.is_some() {
                // the vec keeps its blocks, not more
                let blocks = heap::live(Who::Sut);
                ensure!(blocks <= sut1, Heap, "after a panic while emplacing out of a vec into {}, {} blocks of the destination stay allocated",
                    ROUTES[route], blocks - sut1.min(blocks));
                if !failed() {
                    host.take().unwrap().leave(true);
                }
                if failed() {
                    return forget_got(got);
                }
            }
            let blocks = heap::live(Who::Sut);
            ensure!(blocks == sut0, Heap, "after a panic while emplacing into {}, {} blocks of the destination stay allocated",
                ROUTES[route], blocks - sut0.min(blocks));
            ensure!(reg::live_total() >= base_live, Own, "a panic while emplacing dropped more than there was");
            forget_got(got);
            // what was lost to the panic is no longer watched
            print(hash_all(&[kind_no, src as u64, route as u64, by_value as u64, mask.into(), nth as u64, 99]));
            count("checks", 1);
            abandon_values();
            return;
        }
        Ok(d) => made = d,
    }
    let d = made;
    let (da, dr) = (c1.allocs - c0.allocs, c1.reallocs - c0.reallocs);
    let dd = c1.deallocs - c0.deallocs;
    let _ = (dr, dd);
    if n != 1 && !failed() {
        fail!(Value, "the source made {n} values");
    }
    let tracked = K::tracked(&d);
    let live = reg::live_total() - base_live - others;
    if let (Some(l), Some(t)) = (expect, take_told()) {
        ensure!(l == t, Announce, "{}: a value of size {} align {} was announced with size {} align {}", ROUTES[route], l.size(), l.align(), t.size(), t.align());
    }
    if let (Some(h), false) = (&host, failed()) {
        h.check(false);
    }
    let (mut class, mut forgot) = (0u64, false);
    match &got {
        Got::Nothing => fail!(Value, "nothing was delivered"),
        Got::Box(b) => {
            check_value::<K>(b, &d, "box");
            exact_block(&**b, "box");
            class = 1;
        }
        Got::Pin(b) => {
            check_value::<K>(b, &d, "pinned box");
            exact_block(&**b, "pinned box");
            class = 2;
        }
        Got::Rc(b) => {
            check_value::<K>(b, &d, "Rc");
            ensure!(Rc::strong_count(b) == 1 && Rc::weak_count(b) == 0, Value, "a new Rc is shared");
            class = 3;
        }
        Got::RcPin(b) => {
            check_value::<K>(b, &d, "pinned Rc");
            class = 4;
        }
        Got::Arc(b) => {
            check_value::<K>(b, &d, "Arc");
            ensure!(Arc::strong_count(b) == 1 && Arc::weak_count(b) == 0, Value, "a new Arc is shared");
            class = 5;
        }
        Got::ArcPin(b) => {
            check_value::<K>(b, &d, "pinned Arc");
            class = 6;
        }
        Got::Vec(v) => {
            ensure!(v.len() == 1, Value, "a vec of one holds {}", v.len());
            match v.get(0) {
                Some(t) => check_value::<K>(t, &d, "vec"),
                None => fail!(Value, "the vec holds nothing"),
            }
            class = 7;
        }
        Got::Dropped => {
            ensure!(live == 0, Own, "dropping left {live} values alive");
            class = 8;
        }
        Got::Forgotten => {
            let want = if K::borrows(src) { 0 } else { tracked };
            ensure!(live == want, Own, "forgetting a value leaves {live} alive, expected {want}");
            forgot = true;
            class = 9;
        }
    }
    if class != 8 && class != 9 {
        ensure!(live == tracked, Own, "a delivered value leaves {live} values alive, expected {tracked}");
    }
    if !special && !hostile && !failed() {
        // how many blocks a destination asks for
        let s = match &got {
            Got::Box(b) => Some(size_of_val(&**b)),
            Got::Pin(b) => Some(size_of_val(&**b)),
            _ => None,
        };
        let by_val = src - K::SPECIALS == 2 && !cfg!(miri);
        let direct = if by_val { by_value < 2 || (by_value == 6 && route < 2) } else { route < 2 || route == 16 };
        if let (Some(s), true) = (s, direct) {
            ensure!(da == u64::from(s > 0) && dr == 0, Announce, "boxing a value of size {s} made {da} allocations and {dr} reallocations");
        }
        if matches!(got, Got::Dropped | Got::Forgotten) {
            ensure!(da == 0 && dr == 0, Announce, "consuming a value in place made {da} allocations");
        }
    }
    poll();
    if failed() {
        return forget_got(got);
    }
    sut(|| drop(got));
    own(|| drop(d));
    poll();
    if failed() {
        return;
    }
    if let Some(h) = host {
        h.leave(false);
        poll();
        if failed() {
            return;
        }
    }
    let live = reg::live_total() - base_live;
    if !forgot {
        ensure!(live == 0, Own, "{live} values are alive at the end");
    }
    let l = heap::live_since(since);
    match l.iter().find(|(_, b)| b.who == Who::Sut || (!forgot && base_live == 0)) {
        Some((p, b)) => fail!(Heap, "a block leaked: {p:#x} size {} align {} ({:?}), {} on {}", b.size, b.align, b.who, K::NAME, ROUTES[route]),
        None => {}
    }
    own(|| drop(l));
    if forgot || base_live != 0 {
        abandon_values();
    }
    heap::verify();
    poll();
    count("checks", 1);
    let _ = elem(|| ());
    print(hash_all(&[kind_no, src as u64, route as u64, by_value as u64, class, tracked as u64]));
}

/// Stops watching values and blocks that were forgotten on purpose.
fn abandon_values() {
    reg::reset();
    heap::abandon();
}

fn forget_got<T: ?Sized>(g: Got<T>) {
    std::mem::forget(g);
}
