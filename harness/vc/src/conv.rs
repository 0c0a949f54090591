//! V11: from a Vec and back, iterators of both, and unsizing.
use crate::Scenario;
use mon::ctx::*;
use mon::heap::{self, elem, own, sut};
use mon::kinds::Obj;
use mon::rng::Rng;
use mon::toks::*;
use unsized_vec::{UnsizedIter, UnsizedVec};

pub const ALL: &[Scenario] = &[
    ("from a Vec and back", |_, r| by_class(r, Job::Back)),
    ("from a Vec and back", |_, r| by_class(r, Job::Back)),
    ("iterators", |_, r| by_class(r, Job::Iter)),
    ("unsizing", |_, r| by_class(r, Job::Unsize)),
    ("chains of conversions", |_, r| by_class(r, Job::Chain)),
];

#[derive(Clone, Copy)]
enum Job {
    Back,
    Iter,
    Unsize,
    Chain,
}

fn by_class(r: &mut Rng, job: Job) {
    fn one<T: Tok + Clone>(r: &mut Rng, job: Job) {
        let since = heap::seq();
        calm("conversion", || match job {
            Job::Back => back::<T>(r),
            Job::Iter => iter::<T>(r),
            Job::Unsize => unsize::<T>(r),
            Job::Chain => chain::<T>(r),
        });
        count("checks", 1);
        poll();
        expect_clean(since, false);
    }
    match r.below(11) {
        0 => one::<Z1>(r, job),
        1 => one::<Z128>(r, job),
        2 => one::<B1>(r, job),
        3 => one::<B3>(r, job),
        4 => one::<W6>(r, job),
        5 => one::<Q8>(r, job),
        6 => one::<Q24>(r, job),
        7 => one::<X48>(r, job),
        8 => one::<P192>(r, job),
        9 => one::<B37>(r, job),
        _ => one::<Hb>(r, job),
    }
}

fn vals<'a, T: Tok>(it: impl IntoIterator<Item = &'a T>) -> Vec<u64> {
    own(|| it.into_iter().map(value).collect())
}
fn made<T: Tok>(r: &mut Rng) -> Vec<T> {
    let n = *r.pick(&[0usize, 0, 1, 2, 3, 5, 8, 20]);
    let cap = n + *r.pick(&[0usize, 0, 1, 4, 30]);
    sut(|| {
        let mut v = Vec::with_capacity(cap);
        for _ in 0..n {
            v.push(T::fresh());
        }
        v
    })
}
fn quiet(c0: heap::Counts, what: &str) {
    let c = heap::counts();
    ensure!(c.allocs == c0.allocs && c.reallocs == c0.reallocs && c.deallocs == c0.deallocs, Cap,
        "{what} made {} allocations, {} reallocations and {} releases", c.allocs - c0.allocs, c.reallocs - c0.reallocs, c.deallocs - c0.deallocs);
}
/// Checks that a Vec may be looked at.
fn sound<T: Tok>(v: &Vec<T>, what: &str) -> bool {
    let (p, n, cap) = (v.as_ptr().addr(), v.len(), v.capacity());
    if n > cap {
        fail!(Model, "{what}: {n} elements in a capacity of {cap}");
        return false;
    }
    if p % align_of::<T>() != 0 {
        fail!(Align, "{what}: the buffer is at {p:#x}");
        return false;
    }
    if cap > 0 && size_of::<T>() > 0 {
        match heap::block_of(p) {
            Some((base, b)) if base == p && b.size == cap * size_of::<T>() && b.align == align_of::<T>() => {}
            b => {
                fail!(Heap, "{what}: a capacity of {cap} at {p:#x}, but the block is {:?}", b.map(|b| (b.0, b.1.size, b.1.align)));
                return false;
            }
        }
    }
    true
}

fn there<T: Tok>(v: Vec<T>) -> UnsizedVec<T> {
    let (p, n, cap) = (v.as_ptr().addr(), v.len(), v.capacity());
    let m = vals(&v);
    let c0 = heap::counts();
    let u: UnsizedVec<T> = sut(|| v.into());
    quiet(c0, "turning a Vec into an UnsizedVec");
    ensure!(u.len() == n && u.capacity() == cap, Model, "a Vec with {n} of {cap} elements became an UnsizedVec with {} of {}", u.len(), u.capacity());
    if let Some(t) = u.get(0) {
        ensure!(std::ptr::from_ref(t).addr() == p, Model, "turning a Vec into an UnsizedVec moved the elements");
    }
    ensure!(u.byte_len() == n * size_of::<T>() && u.align() == align_of::<T>(), Layout, "{} bytes, alignment {}, for {n} elements", u.byte_len(), u.align());
    if !failed() {
        let got = vals(&u);
        ensure!(got == m, Model, "the Vec held {m:?}, the UnsizedVec holds {got:?}");
    }
    own(|| drop(m));
    count("conversions", 1);
    u
}

fn home<T: Tok>(u: UnsizedVec<T>) -> Vec<T> {
    let m = vals(&u);
    let (n, cap) = (u.len(), u.capacity());
    let p = u.get(0).map(|t| std::ptr::from_ref(t).addr());
    let c0 = heap::counts();
    let v: Vec<T> = sut(|| u.into());
    quiet(c0, "turning an UnsizedVec into a Vec");
    ensure!(v.len() == n && v.capacity() == cap, Model, "an UnsizedVec with {n} of {cap} elements became a Vec with {} of {}", v.len(), v.capacity());
    if let Some(p) = p {
        ensure!(v.as_ptr().addr() == p, Model, "turning an UnsizedVec into a Vec moved the elements");
    }
    if !failed() && sound(&v, "after conversion") {
        let got = vals(&v);
        ensure!(got == m, Model, "the UnsizedVec held {m:?}, the Vec holds {got:?}");
    }
    own(|| drop(m));
    count("conversions", 1);
    v
}

fn disturb<T: Tok>(u: &mut UnsizedVec<T>, r: &mut Rng) {
    let m = own(|| std::cell::RefCell::new(vals(&*u)));
    for _ in 0..r.below(8) {
        match r.below(6) {
            0 | 1 => {
                let t = T::fresh();
                own(|| m.borrow_mut().push(value(&t)));
                sut(|| u.push(t));
            }
            2 => {
                let at = r.below(u.len() + 1);
                let t = T::fresh();
                own(|| m.borrow_mut().insert(at, value(&t)));
                sut(|| u.insert(at, t));
            }
            3 if !u.is_empty() => {
                let at = r.below(u.len());
                m.borrow_mut().remove(at);
                sut(|| drop(u.remove_into(at)));
            }
            4 => {
                let k = r.below(9);
                sut(|| u.reserve_exact_capacity_bytes(k, r.below(100)));
            }
            _ => sut(|| if r.chance(1, 2) { u.shrink_to_fit() } else { u.shrink_to(r.below(20)) }),
        }
    }
    let got = vals(&*u);
    ensure!(got == *m.borrow(), Model, "after a few operations the vec holds {got:?}, expected {:?}", m.borrow());
    own(|| drop((got, m)));
}

fn back<T: Tok>(r: &mut Rng) {
    let mut v = made::<T>(r);
    print(hash_all(&[9000, u64::from(T::CLS), v.len() as u64, size_class(v.capacity() - v.len())]));
    logf!("{} of {} elements of class {}", v.len(), v.capacity(), T::CLS);
    for _ in 0..r.range(1, 4) {
        let mut u = there(v);
        if r.chance(2, 3) {
            disturb(&mut u, r);
        }
        v = home(u);
        if failed() {
            std::mem::forget(v);
            return;
        }
        // a Vec like any other
        match r.below(4) {
            0 => sut(|| v.push(T::fresh())),
            1 => {
                let x = v.pop();
                sut(|| drop(x));
            }
            2 => {
                let c0 = heap::counts();
                if v.capacity() < 1000 {
                    while v.len() < v.capacity() {
                        let t = T::fresh();
                        sut(|| v.push(t));
                    }
                }
                quiet(c0, "filling the capacity of a converted Vec");
            }
            _ => sut(|| v.reverse()),
        }
    }
    sut(|| drop(v));
}

fn addrs<'a, T: Tok>(it: impl IntoIterator<Item = &'a T>) -> Vec<usize> {
    own(|| it.into_iter().map(|t| std::ptr::from_ref(t).addr()).collect())
}

fn iter<T: Tok>(r: &mut Rng) {
    let v = made::<T>(r);
    let n = v.len();
    let (mut lo, mut hi) = (0, n);
    let mut step = |r: &mut Rng, what: &str, front: bool, got: Option<&T>| {
        let want = (lo < hi).then(|| {
            if front {
                lo += 1;
                &v[lo - 1]
            } else {
                hi -= 1;
                &v[hi]
            }
        });
        let _ = r;
        ensure!(got.map(std::ptr::from_ref) == want.map(std::ptr::from_ref), Iter, "{what}: an iterator yields another element");
        if let Some(t) = got.filter(|_| !failed()) {
            value(t);
        }
        (lo, hi)
    };
    let mut s = v.iter();
    let mut left = (0, n);
    let rounds = r.range(1, 4);
    print(hash_all(&[9001, u64::from(T::CLS), n as u64, rounds as u64]));
    logf!("{rounds} conversions of an iterator over {n} of class {}", T::CLS);
    for _ in 0..rounds {
        for _ in 0..r.below(3) {
            let f = r.chance(1, 2);
            let x = if f { s.next() } else { s.next_back() };
            left = step(r, "slice iterator", f, x);
        }
        let mut u: UnsizedIter<'_, T> = sut(|| s.into());
        ensure!(u.len() == left.1 - left.0 && u.size_hint() == (left.1 - left.0, Some(left.1 - left.0)), Iter, "an iterator with {} left became one with {}", left.1 - left.0, u.len());
        for _ in 0..r.below(3) {
            let f = r.chance(1, 2);
            let x = if f { u.next() } else { u.next_back() };
            left = step(r, "UnsizedIter", f, x);
        }
        s = sut(|| u.into());
        ensure!(s.len() == left.1 - left.0, Iter, "an iterator with {} left became one with {}", left.1 - left.0, s.len());
        if failed() {
            break;
        }
        let (got, want) = (addrs(s.as_slice()), addrs(&v[left.0..left.1]));
        ensure!(got == want, Iter, "a converted iterator covers other elements");
        own(|| drop((got, want)));
    }
    // the iterator of an UnsizedVec, as a slice
    if !failed() {
        let m = vals(&v);
        let u = there(v);
        let mut it = u.iter();
        let k = r.below(3).min(n);
        for _ in 0..k {
            it.next();
        }
        let s: std::slice::Iter<'_, T> = sut(|| it.into());
        let got = vals(s.as_slice());
        ensure!(got == m[k..], Iter, "after {k} of {m:?} the slice iterator covers {got:?}");
        count("conversions", rounds as u64 * 2 + 1);
        own(|| drop((m, got)));
        sut(|| drop(u));
    } else {
        std::mem::forget(v);
    }
}

fn unsize<T: Tok>(r: &mut Rng) {
    let v = made::<T>(r);
    let m = vals(&v);
    print(hash_all(&[9002, u64::from(T::CLS), v.len() as u64, size_class(v.capacity() - v.len())]));
    logf!("unsizing {} of {} elements of class {}", v.len(), v.capacity(), T::CLS);
    let mut u = there(v);
    if r.chance(1, 2) {
        disturb(&mut u, r);
    }
    own(|| drop(m));
    let m = vals(&u);
    let n = u.len();
    let mut d: UnsizedVec<dyn Obj> = sut(|| u.unsize());
    ensure!(d.len() == n, Model, "unsizing {n} elements left {}", d.len());
    let al = d.align();
    ensure!(al >= align_of::<T>() && al.is_power_of_two() || n == 0, Align, "unsizing gave alignment {al}, the elements have {}", align_of::<T>());
    if failed() {
        std::mem::forget(d);
        return;
    }
    ensure!(d.byte_len() == n * size_of::<T>().next_multiple_of(al), Layout, "{} bytes for {n} elements of {}, alignment {al}", d.byte_len(), size_of::<T>());
    ensure!(d.byte_capacity() >= d.byte_len() && d.capacity() >= n, Cap, "a capacity of {} elements and {} bytes for {n} elements and {} bytes", d.capacity(), d.byte_capacity(), d.byte_len());
    let look = |d: &UnsizedVec<dyn Obj>| -> Vec<(u16, u64)> {
        own(|| {
            d.iter()
                .map(|t| {
                    let (a, al) = (std::ptr::from_ref(t).cast::<()>().addr(), align_of_val(t));
                    if a % al != 0 {
                        fail!(Align, "an element at {a:#x} of alignment {al}");
                        return (0, 0);
                    }
                    (t.cls(), t.value())
                })
                .collect()
        })
    };
    let mut want: Vec<(u16, u64)> = own(|| m.iter().map(|x| (T::CLS, *x)).collect());
    let got = look(&d);
    ensure!(got == want, Model, "unsizing {want:?} gave {got:?}");
    own(|| drop((got, m)));
    count("conversions", 1);
    // every later operation, with elements of other types in between
    for _ in 0..r.below(8) {
        if failed() {
            break;
        }
        match r.below(6) {
            0 => {
                let t = T::fresh();
                own(|| want.push((T::CLS, value(&t))));
                sut(|| d.push_unsize(t));
            }
            1 => {
                let t = Q24::fresh();
                let at = r.below(d.len() + 1);
                own(|| want.insert(at, (Q24::CLS, value(&t))));
                sut(|| d.insert_unsize(at, t));
            }
            2 => {
                let t = L64::fresh();
                let at = r.below(d.len() + 1);
                own(|| want.insert(at, (L64::CLS, value(&t))));
                let b: Box<dyn Obj> = elem(|| Box::new(t));
                sut(|| insert_val!(d, at, b));
            }
            3 if !d.is_empty() => {
                let at = r.below(d.len());
                own(|| want.remove(at));
                sut(|| drop(d.remove_into(at)));
            }
            4 => {
                own(|| want.pop());
                sut(|| drop(d.pop_into()));
            }
            _ => sut(|| d.shrink_to_fit()),
        }
        let got = look(&d);
        ensure!(got == want, Model, "after unsizing the vec holds {got:?}, expected {want:?}");
        own(|| drop(got));
    }
    own(|| drop(want));
    if failed() {
        std::mem::forget(d);
    } else {
        sut(|| drop(d));
    }
}

/// Vec, UnsizedVec of arrays, slices.
fn chain<T: Tok + Clone>(r: &mut Rng) {
    fn with<T: Tok + Clone, const N: usize>(r: &mut Rng) {
        let n = r.below(6);
        let v: Vec<[T; N]> = sut(|| {
            let mut v = Vec::with_capacity(n + r.below(4));
            for _ in 0..n {
                v.push(std::array::from_fn(|_| T::fresh()));
            }
            v
        });
        let m: Vec<Vec<u64>> = own(|| v.iter().map(|a| a.iter().map(value).collect::<Vec<u64>>()).collect());
        let (p, cap) = (v.as_ptr().addr(), v.capacity());
        let c0 = heap::counts();
        let u: UnsizedVec<[T; N]> = sut(|| v.into());
        quiet(c0, "turning a Vec into an UnsizedVec");
        ensure!(u.capacity() == cap, Cap, "the capacity went from {cap} to {}", u.capacity());
        ensure!(u.get(0).is_none_or(|t| t.as_ptr().addr() == p), Model, "turning a Vec into an UnsizedVec moved the elements");
        let back = r.chance(1, 3);
        let u = if back {
            let v: Vec<[T; N]> = sut(|| u.into());
            ensure!(v.capacity() == cap && v.as_ptr().addr() == p, Cap, "there and back, the allocation changed");
            sut(|| v.into())
        } else {
            u
        };
        let s: UnsizedVec<[T]> = sut(|| u.unsize());
        ensure!(s.len() == n && s.align() == align_of::<T>() && s.byte_len() == n * N * size_of::<T>(), Layout,
            "{n} arrays of {N} became {} slices, {} bytes, alignment {}", s.len(), s.byte_len(), s.align());
        if !failed() {
            for (i, t) in s.iter().enumerate() {
                if t.len() != N || t.as_ptr().addr() % align_of::<T>() != 0 {
                    fail!(Model, "array {i} of {N} became a slice of {} at {:p}", t.len(), t.as_ptr());
                    break;
                }
                let got = vals(t);
                ensure!(got == m[i], Model, "array {i} was {:?}, the slice is {got:?}", m[i]);
                own(|| drop(got));
            }
        }
        count("conversions", 2);
        own(|| drop(m));
        if failed() {
            std::mem::forget(s);
        } else {
            sut(|| drop(s));
        }
    }
    let k = r.below(5);
    print(hash_all(&[9003, u64::from(T::CLS), k as u64]));
    logf!("arrays of {k} of class {}", T::CLS);
    match k {
        0 => with::<T, 0>(r),
        1 => with::<T, 1>(r),
        2 => with::<T, 2>(r),
        3 => with::<T, 3>(r),
        _ => with::<T, 7>(r),
    }
}
