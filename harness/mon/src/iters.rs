//! Iterator call sequences, checked online against the slice iterator.

use crate::ctx::*;
use crate::engine::{addr_of, look};
use crate::heap::{own, sut};
use crate::kinds::*;
use crate::rng::Rng;
use unsized_vec::UnsizedVec;

/// Address, size, and what else the reference carries.
type Key = (usize, usize, u64);

fn key_of<T: ?Sized>(x: &T) -> Key {
    own(|| {
        let mut h = std::hash::DefaultHasher::new();
        std::hash::Hash::hash(&std::ptr::metadata(x), &mut h);
        (addr_of(x), size_of_val(x), std::hash::Hasher::finish(&h))
    })
}

/// Drives `it` and the slice iterator `mo` through the same calls.
/// `key` identifies an item; `visit` looks at items handed out.
pub fn drive<'m, I, F>(it: I, mo: std::slice::Iter<'m, Key>, r: &mut Rng, key: F, keep: &mut Vec<I::Item>, keep_all: bool)
where
    I: DoubleEndedIterator + ExactSizeIterator,
    F: Fn(&I::Item) -> Key,
{
    let mut it = it;
    let mut mo = mo;
    let n = mo.len();
    let mut trace: Vec<String> = own(Vec::new);
    macro_rules! say {
        ($($a:tt)*) => {{ own(|| trace.push(format!($($a)*))); count("iterator_calls", 1); }};
    }
    macro_rules! same {
        ($x:expr, $y:expr) => {{
            let x = $x;
            let y: Option<&Key> = $y;
            let kx = x.as_ref().map(&key);
            let ky = y.copied();
            ensure!(kx == ky, Iter, "iterator of {n} elements: after {trace:?} it gives {kx:x?}, the slice iterator {ky:x?}");
            if let Some(x) = x {
                own(|| keep.push(x));
            }
        }};
    }
    let steps = r.below(2 * n + 5);
    let mut prints = 7u64;
    for _ in 0..steps {
        let left = mo.len();
        let call = r.below(15);
        let k = match r.below(5) {
            0 | 1 => 0,
            2 => r.below(left + 1),
            3 => 1,
            _ => match r.below(8) {
                // beyond what can be added to, or be told by its low bits
                0 => usize::MAX - r.below(2),
                1 => 1usize.checked_shl(*r.pick(&[8, 16, 32, usize::BITS - 4, usize::BITS - 1])).unwrap_or(256) + r.below(left + 1),
                _ => left + r.below(2),
            },
        };
        prints = hash_all(&[prints, call as u64, k.min(4) as u64, (k == left) as u64, (k > left) as u64]);
        match call {
            0 | 1 => {
                say!("next()");
                same!(sut(|| it.next()), mo.next());
            }
            2 | 3 => {
                say!("next_back()");
                same!(sut(|| it.next_back()), mo.next_back());
            }
            4 | 5 => {
                say!("nth({k})");
                same!(sut(|| it.nth(k)), mo.nth(k));
            }
            6 | 7 => {
                say!("nth_back({k})");
                same!(sut(|| it.nth_back(k)), mo.nth_back(k));
            }
            8 => {
                say!("by_ref().take({k})");
                let a: Vec<I::Item> = own(|| it.by_ref().take(k).collect());
                let b: Vec<Key> = own(|| mo.by_ref().take(k).copied().collect());
                let ka: Vec<Key> = own(|| a.iter().map(&key).collect());
                ensure!(ka == b, Iter, "iterator of {n} elements: {trace:?} gives {ka:x?}, the slice iterator {b:x?}");
                own(|| keep.extend(a));
            }
            9 => {
                let want = mo.clone().nth(k).copied();
                say!("find({k})");
                let hit = own(|| it.find(|x| Some(key(x)) == want));
                let want_hit = own(|| mo.find(|x| Some(**x) == want));
                same!(hit, want_hit);
            }
            10 => {
                let want = mo.clone().nth_back(k).copied();
                say!("rfind({k})");
                let hit = own(|| it.rfind(|x| Some(key(x)) == want));
                let want_hit = own(|| mo.rfind(|x| Some(**x) == want));
                same!(hit, want_hit);
            }
            11 => {
                let want = mo.clone().nth(k).copied();
                say!("find_map({k})");
                // gives the item itself, so that it is looked at
                let hit = own(|| it.find_map(|x| (Some(key(&x)) == want).then_some(x)));
                let want_hit = own(|| mo.find_map(|x| (Some(*x) == want).then_some(x)));
                same!(hit, want_hit);
            }
            12 => {
                let want = mo.clone().nth(k).copied();
                say!("any/all({k})");
                let (a, b) = match r.below(3) {
                    0 => (own(|| it.any(|x| Some(key(&x)) == want)), own(|| mo.any(|x| Some(*x) == want))),
                    1 => (own(|| it.all(|x| Some(key(&x)) != want)), own(|| mo.all(|x| Some(*x) != want))),
                    _ => {
                        // each item is shown once, in order
                        let (mut a, mut b): (Vec<Key>, Vec<Key>) = own(|| (Vec::new(), Vec::new()));
                        let x = own(|| it.all(|x| { a.push(key(&x)); Some(key(&x)) != want }));
                        let y = own(|| mo.all(|x| { b.push(*x); Some(*x) != want }));
                        ensure!(a == b, Iter, "iterator of {n} elements: {trace:?} shows {a:x?}, the slice iterator {b:x?}");
                        own(|| drop((a, b)));
                        (x, y)
                    }
                };
                ensure!(a == b, Iter, "iterator of {n} elements: {trace:?} gives {a}, the slice iterator {b}");
            }
            13 => {
                say!("try_fold({k}) / try_rfold");
                let mut f = |c: &mut Vec<Key>, x: Key| { c.push(x); if c.len() > k { None } else { Some(()) } };
                let (mut a, mut b): (Vec<Key>, Vec<Key>) = own(|| (Vec::new(), Vec::new()));
                if r.chance(1, 2) {
                    own(|| it.try_fold((), |(), x| f(&mut a, key(&x))));
                    own(|| mo.try_fold((), |(), x| f(&mut b, *x)));
                } else {
                    own(|| it.try_rfold((), |(), x| f(&mut a, key(&x))));
                    own(|| mo.try_rfold((), |(), x| f(&mut b, *x)));
                }
                ensure!(a == b, Iter, "iterator of {n} elements: {trace:?} gives {a:x?}, the slice iterator {b:x?}");
                own(|| drop((a, b)));
            }
            _ => {
                let want = mo.clone().nth(k).copied();
                say!("position({k})");
                let (a, b) = if r.chance(1, 2) {
                    (own(|| it.position(|x| Some(key(&x)) == want)), own(|| mo.position(|x| Some(*x) == want)))
                } else {
                    (own(|| it.rposition(|x| Some(key(&x)) == want)), own(|| mo.rposition(|x| Some(*x) == want)))
                };
                ensure!(a == b, Iter, "iterator of {n} elements: {trace:?} gives {a:?}, the slice iterator {b:?}");
            }
        }
        let (l, h) = (it.len(), it.size_hint());
        ensure!(l == mo.len() && h == mo.size_hint(), Iter, "iterator of {n} elements: after {trace:?} len {l} size_hint {h:?}, the slice iterator has {}", mo.len());
        if failed() {
            return;
        }
    }
    let left = mo.len();
    let k = r.below(left + 2);
    let end = if keep_all { 0 } else { r.below(15) };
    print(hash_all(&[0x17e4, prints, end as u64, left.min(6) as u64]));
    macro_rules! list {
        ($name:literal, $a:expr, $b:expr) => {{
            say!($name);
            let a: Vec<I::Item> = own(|| $a.collect());
            let b: Vec<Key> = own(|| $b.copied().collect());
            let ka: Vec<Key> = own(|| a.iter().map(&key).collect());
            ensure!(ka == b, Iter, "iterator of {n} elements: {trace:?} (k = {k}) gives {ka:x?}, the slice iterator {b:x?}");
            own(|| keep.extend(a));
        }};
    }
    match end {
        0 | 1 => list!("collect", it, mo),
        2 => list!("rev", it.rev(), mo.rev()),
        3 => list!("skip", it.skip(k), mo.skip(k)),
        4 => list!("step_by", it.step_by(k + 1), mo.step_by(k + 1)),
        5 => list!("rev.skip", it.rev().skip(k), mo.rev().skip(k)),
        6 => list!("skip.rev", it.skip(k).rev(), mo.skip(k).rev()),
        7 => list!("step_by.rev", it.step_by(k + 1).rev(), mo.step_by(k + 1).rev()),
        8 => {
            say!("last()");
            same!(sut(|| it.last()), mo.last());
        }
        9 => {
            say!("count()");
            let a = sut(|| it.count());
            let b = mo.count();
            ensure!(a == b, Iter, "iterator of {n} elements: {trace:?} gives {a}, the slice iterator {b}");
        }
        10 => {
            say!("fold()");
            let a = own(|| it.fold(Vec::new(), |mut v, x| { v.push(key(&x)); v }));
            let b: Vec<Key> = own(|| mo.copied().collect());
            ensure!(a == b, Iter, "iterator of {n} elements: {trace:?} gives {a:x?}, the slice iterator {b:x?}");
        }
        11 => {
            say!("rfold()");
            let a = own(|| it.rfold(Vec::new(), |mut v, x| { v.push(key(&x)); v }));
            let b: Vec<Key> = own(|| mo.rev().copied().collect());
            ensure!(a == b, Iter, "iterator of {n} elements: {trace:?} gives {a:x?}, the slice iterator {b:x?}");
        }
        12 => {
            say!("for_each()");
            let mut a: Vec<Key> = own(Vec::new);
            own(|| it.for_each(|x| a.push(key(&x))));
            let b: Vec<Key> = own(|| mo.copied().collect());
            ensure!(a == b, Iter, "iterator of {n} elements: {trace:?} gives {a:x?}, the slice iterator {b:x?}");
        }
        13 => {
            say!("all/any({k})");
            let want = mo.clone().nth(k).copied();
            let a = own(|| it.all(|x| Some(key(&x)) != want));
            let b = own(|| mo.all(|x| Some(*x) != want));
            let (la, lb) = (it.len(), mo.len());
            let a2 = own(|| it.any(|x| Some(key(&x)) != want));
            let b2 = own(|| mo.any(|x| Some(*x) != want));
            ensure!(a == b && la == lb && a2 == b2 && it.len() == mo.len(), Iter, "iterator of {n} elements: {trace:?} gives {a} {a2}, the slice iterator {b} {b2}");
        }
        _ => {
            say!("to the end and beyond");
            while let Some(k) = mo.next() {
                same!(sut(|| it.next()), Some(k));
            }
            for j in 0..4 {
                let x = match j {
                    0 => it.next(),
                    1 => it.next_back(),
                    2 => it.nth(k),
                    _ => it.nth_back(k),
                };
                ensure!(x.is_none() && it.len() == 0, Iter, "iterator of {n} elements: after {trace:?} an exhausted iterator yields again");
            }
        }
    }
    logf!("    iterator calls: {trace:?}");
    own(|| drop(trace));
}

fn keys<T: ?Sized>(v: &UnsizedVec<T>) -> Vec<Key> {
    own(|| (0..v.len()).map(|i| key_of(&v[i])).collect())
}

pub fn check_iter<K: Kind>(v: &UnsizedVec<K::T>, r: &mut Rng) {
    logf!("iterate over {} elements", v.len());
    let ks = keys(v);
    let mut keep = own(Vec::new);
    if r.chance(1, 2) {
        drive(v.iter(), ks.iter(), r, |x| key_of::<K::T>(x), &mut keep, false);
    } else {
        drive(v.into_iter(), ks.iter(), r, |x| key_of::<K::T>(x), &mut keep, false);
    }
    if failed() {
        return;
    }
    for x in keep.iter() {
        look::<K>(x, "yielded by an iterator");
    }
    count("iterations", 1);
    own(|| {
        drop(keep);
        drop(ks);
    });
}

/// Mutable iteration: all yielded references are alive at once; they must not overlap,
/// and what is written through them is what is read later.
pub fn check_iter_mut<K: Kind>(v: &mut UnsizedVec<K::T>, m: &mut [Desc], r: &mut Rng) {
    logf!("iterate mutably over {} elements", v.len());
    let ks = keys(v);
    let mut keep = own(Vec::new);
    let all = r.chance(1, 2);
    if r.chance(1, 2) {
        drive(v.iter_mut(), ks.iter(), r, |x| key_of::<K::T>(x), &mut keep, all);
    } else {
        drive(v.into_iter(), ks.iter(), r, |x| key_of::<K::T>(x), &mut keep, all);
    }
    if failed() {
        return;
    }
    let mut spans: Vec<(usize, usize)> = own(|| keep.iter().map(|x| (addr_of(&**x), size_of_val(&**x))).filter(|x| x.1 > 0).collect());
    spans.sort_unstable();
    for w in spans.windows(2) {
        ensure!(w[0].0 + w[0].1 <= w[1].0, Iter, "two mutable references overlap: {:#x}+{} and {:#x}+{}", w[0].0, w[0].1, w[1].0, w[1].1);
    }
    if failed() {
        return;
    }
    // write through all of them while all are alive
    for x in keep.iter_mut() {
        let t: &mut K::T = x;
        if look::<K>(t, "yielded by a mutable iterator").is_none() {
            return;
        }
        // zero-sized elements have no place of their own: their value cannot change
        let (a, s) = (addr_of(t), size_of_val(t));
        if s == 0 {
            continue;
        }
        K::poke(t, r);
        let d = K::obs(t);
        match ks.iter().position(|k| (k.0, k.1) == (a, s)) {
            Some(i) => own(|| m[i] = d),
            None => fail!(Iter, "a mutable iterator yields {a:#x}, which is no element"),
        }
    }
    count("iterations_mut", 1);
    own(|| {
        drop(spans);
        drop(keep);
        drop(ks);
    });
}
