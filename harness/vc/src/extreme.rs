//! V04, V05, V07: sizes and alignments at the limits of the address space.
use crate::Scenario;
use mon::ctx::*;
use mon::heap::{self, elem, own, sut};
use mon::kinds::Obj;
use mon::rng::Rng;
use mon::toks::*;
use unsized_vec::UnsizedVec;

pub const ALL: &[Scenario] = &[
    ("extreme requests, trait objects", |_, r| extreme::<dyn Obj>(r)),
    ("extreme requests, zero-sized trait objects", |_, r| extreme::<dyn Zero>(r)),
    ("extreme requests, slices", |_, r| extreme::<[Q8]>(r)),
    ("extreme requests, slices of zero-sized values", |_, r| extreme::<[Z16]>(r)),
    ("extreme requests, sized", |_, r| extreme::<X48>(r)),
    ("extreme requests, zero-sized", |_, r| extreme::<Z128>(r)),
];

pub trait Ex: 'static {
    const DYNAMIC: bool;
    fn draw(r: &mut Rng) -> Box<Self>;
    fn see(&self) -> u64;
}
/// A trait whose objects here take no space.
pub trait Zero {
    fn see(&self) -> u64;
}
impl<T: Tok> Zero for T {
    fn see(&self) -> u64 {
        value(self) ^ u64::from(T::CLS)
    }
}
impl Ex for dyn Obj {
    const DYNAMIC: bool = true;
    fn draw(r: &mut Rng) -> Box<dyn Obj> {
        match r.below(6) {
            0 => Box::new(Z16::fresh()),
            1 => Box::new(B3::fresh()),
            2 => Box::new(Hb::fresh()),
            3 => Box::new(L64::fresh()),
            4 => Box::new(Z128::fresh()),
            _ => Box::new(D12::fresh()),
        }
    }
    fn see(&self) -> u64 {
        self.value() ^ u64::from(self.cls())
    }
}
impl Ex for dyn Zero {
    const DYNAMIC: bool = true;
    fn draw(r: &mut Rng) -> Box<dyn Zero> {
        match r.below(3) {
            0 => Box::new(Z1::fresh()),
            1 => Box::new(Z16::fresh()),
            _ => Box::new(Z128::fresh()),
        }
    }
    fn see(&self) -> u64 {
        Zero::see(self)
    }
}
impl<T: Tok> Ex for [T] {
    const DYNAMIC: bool = false;
    fn draw(r: &mut Rng) -> Box<[T]> {
        (0..r.below(4)).map(|_| T::fresh()).collect()
    }
    fn see(&self) -> u64 {
        self.iter().fold(self.len() as u64, |h, t| h.rotate_left(8) ^ value(t))
    }
}
macro_rules! one {
    ($($t:ident)*) => {$(
        impl Ex for $t {
            const DYNAMIC: bool = false;
            fn draw(_: &mut Rng) -> Box<$t> {
                Box::new($t::fresh())
            }
            fn see(&self) -> u64 {
                value(self)
            }
        }
    )*};
}
one! { X48 Z128 }

fn amount(r: &mut Rng) -> usize {
    match r.below(10) {
        0 | 1 => 0,
        2 => r.below(70),
        3 => usize::MAX - r.below(3),
        4 => isize::MAX as usize - r.below(200),
        5 => isize::MAX as usize + r.below(200),
        6 => usize::MAX >> r.below(usize::BITS as usize),
        7 => (usize::MAX >> r.below(8)) / *r.pick(&[1usize, 8, 16, 24, 48]),
        8 => 1 << r.below(usize::BITS as usize),
        _ => r.below(2000),
    }
}

fn extreme<T: Ex + ?Sized>(r: &mut Rng) {
    let since = heap::seq();
    let mut trail = 0u64;
    let mut lost = false;
    heap::limit(Some(1 << 21));
    calm("extreme requests", || {
        let mut v: UnsizedVec<T> = UnsizedVec::new();
        let mut m: Vec<u64> = Vec::new();
        for _ in 0..r.range(1, 10) {
            let al = if T::DYNAMIC {
                1usize << (*r.pick(&[0u32, 1, 3, 4, 6, 7, 10, 12, 20, 31, 32, 40, 61, 62, 63, 63])).min(usize::BITS - 1)
            } else {
                1
            };
            let (n, b) = (amount(r), amount(r));
            let (len, cap, bytes, bcap, align) = (v.len(), v.capacity(), v.byte_len(), v.byte_capacity(), v.align());
            let way = r.below(12);
            trail = trail * 13 + way as u64;
            match way {
                0..=5 => {
                    let plan = [(n, 0, 1), (n, 0, 1), (n, b, 1), (n, b, 1), (n, b, al), (n, b, al)][way];
                    let what = format!("try_reserve {way} {plan:?} with {len} elements, {bytes} bytes, alignment {align}, room for {cap} and {bcap}");
                    logf!("{what}");
                    let (n, b, a) = plan;
                    let res = catch(|| {
                        sut(|| match way {
                            0 => v.try_reserve(n),
                            1 => v.try_reserve_exact(n),
                            2 => v.try_reserve_capacity_bytes(n, b),
                            3 => v.try_reserve_exact_capacity_bytes(n, b),
                            4 => v.try_reserve_capacity_bytes_align(n, b, a),
                            _ => v.try_reserve_exact_capacity_bytes_align(n, b, a),
                        })
                    });
                    match res {
                        Ok(Ok(())) => {
                            ensure!(len.checked_add(n).is_some_and(|x| x <= v.capacity()), Cap, "{what}: succeeded with room for {}", v.capacity());
                            ensure!(v.align() >= a, Align, "{what}: succeeded with alignment {}", v.align());
                            let zero = v.capacity() == usize::MAX;
                            ensure!(zero || v.byte_len().checked_add(b).is_some_and(|x| x <= v.byte_capacity()), Cap,
                                "{what}: succeeded with {} bytes, {} in use", v.byte_capacity(), v.byte_len());
                            ensure!(v.byte_capacity() <= isize::MAX as usize || zero, Cap, "{what}: {} bytes", v.byte_capacity());
                            count("reserved", 1);
                        }
                        Ok(Err(_)) => {
                            let possible = n < 1 << 12 && b < 1 << 16 && a.max(v.align()) < 1 << 16 && cap < 1 << 12 && bcap < 1 << 16;
                            ensure!(!possible, Cap, "{what}: refused");
                            ensure!(v.align() == align && v.byte_len() == bytes, Model, "{what}: failed, and turned {bytes} bytes, alignment {align} into {}, {}", v.byte_len(), v.align());
                            count("refused", 1);
                        }
                        Err(e) => fail!(Panic, "{what}: panicked: {e:?}"),
                    }
                }
                6 => {
                    logf!("reserve {n} {b} {al}");
                    // infallible: a panic or an allocation failure, and nothing changes
                    let res = catch(|| sut(|| if r.chance(1, 2) { v.reserve_capacity_bytes_align(n, b, al) } else { v.reserve_exact_capacity_bytes_align(n, b, al) }));
                    if res.is_ok() {
                        ensure!(len.checked_add(n).is_some_and(|x| x <= v.capacity()) && v.align() >= al, Cap, "reserve {n} {b} {al} returned with room for {}, alignment {}", v.capacity(), v.align());
                    } else {
                        ensure!(v.align() == align && v.byte_len() == bytes, Model, "a panicking reserve turned {bytes} bytes, alignment {align} into {}, {}", v.byte_len(), v.align());
                    }
                }
                7 | 8 | 9 => {
                    let d = elem(|| T::draw(r));
                    let s = d.see();
                    let size = size_of_val(&*d);
                    logf!("adding {size} bytes, alignment {} to a vec of alignment {align}", align_of_val(&*d));
                    let at = if r.chance(1, 2) { len } else { r.below(len + 1) };
                    let res = catch(|| sut(|| if way == 7 { insert_val!(v, at, d) } else if way == 8 { v.insert_with(at, d.into()) } else { v.insert_with(at, mon::emp::from_box(d)) }));
                    match res {
                        Ok(()) => {
                            m.insert(at, s);
                            count("additions", 1);
                        }
                        Err(e) => {
                            // only an alignment that no memory can have is an excuse
                            ensure!(align > 1 << 16 && size > 0 || cap > 1 << 14 || bcap > 1 << 17, Panic, "adding {size} bytes at alignment {align} failed: {e:?}");
                            ensure!(v.len() == len && v.align() == align, Model, "a failed addition left {} elements of {len}", v.len());
                            // a value that is being emplaced may be forgotten
                            lost |= way != 7;
                            count("failed_additions", 1);
                        }
                    }
                }
                10 if len > 0 => {
                    let at = r.below(len);
                    sut(|| drop(v.remove_into(at)));
                    m.remove(at);
                }
                _ => {
                    logf!("shrink {n} {b} {al}");
                    sut(|| match r.below(3) {
                        0 => v.shrink_to_fit(),
                        1 => v.shrink_capacity_bytes_to(n, b),
                        _ => v.shrink_capacity_bytes_align_to(n, b, al),
                    });
                    ensure!(v.align() <= align && v.capacity() <= cap && v.byte_capacity() <= bcap, Cap, "shrinking {n} {b} {al} turned ({cap}, {bcap}, {align}) into ({}, {}, {})", v.capacity(), v.byte_capacity(), v.align());
                }
            }
            poll();
            if failed() {
                break;
            }
            if v.len() != m.len() {
                fail!(Model, "{} elements, expected {}", v.len(), m.len());
                break;
            }
            for (i, t) in v.iter().enumerate() {
                let (a, need) = (std::ptr::from_ref(t).cast::<()>().addr(), align_of_val(t));
                if a % need != 0 || v.align() < need {
                    fail!(Align, "element {i} at {a:#x} needs alignment {need}, the vec has {}", v.align());
                    break;
                }
                let s = t.see();
                ensure!(s == m[i], Model, "element {i} is {s:#x}, it was {:#x}", m[i]);
            }
            if failed() {
                break;
            }
            count("checked_states", 1);
        }
        if failed() {
            std::mem::forget((v, m));
        } else {
            drop(m);
            sut(|| drop(v));
        }
    });
    heap::limit(None);
    own(|| print(hash_all(&[9200, trail, std::any::type_name::<T>().len() as u64])));
    count("checks", 1);
    poll();
    if lost && !failed() {
        let l = heap::live(heap::Who::Sut);
        ensure!(l == 0, Heap, "{l} blocks of the vec are left");
    }
    expect_clean(since, lost);
    if lost {
        mon::reg::reset();
        heap::abandon();
    }
}
