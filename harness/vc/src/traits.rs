//! V10: comparison, hash, debug, serialisation, clone, default and indexing.
use crate::record::*;
use crate::Scenario;
use mon::ctx::*;
use mon::emp::*;
use mon::heap::{self, elem, own, sut};
use mon::kinds::Desc;
use mon::reg;
use mon::rng::Rng;
use mon::toks::*;
use serde::Serialize;
use std::borrow::Cow;
use std::cell::Cell;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::ffi::{CStr, CString, OsStr, OsString};
use std::fmt::{Debug, Formatter};
use std::hash::{Hash, Hasher};
use std::path::{Path, PathBuf};
use unsized_vec::UnsizedVec;

pub const ALL: &[Scenario] = &[
    ("[u8]", |_, r| pair::<[u8]>(r)),
    ("[u32]", |_, r| pair::<[u32]>(r)),
    ("[()]", |_, r| pair::<[()]>(r)),
    ("[u128]", |_, r| pair::<[Big]>(r)),
    ("str", |_, r| pair::<str>(r)),
    ("u32", |_, r| pair::<u32>(r)),
    ("()", |_, r| pair::<()>(r)),
    ("String", |_, r| pair::<String>(r)),
    ("dyn Own", |_, r| pair::<dyn Own>(r)),
    ("dyn Own", |_, r| pair::<dyn Own>(r)),
    ("struct with an unsized tail", |_, r| pair::<Tail>(r)),
    ("floats", partial),
    ("CStr, OsStr, Path", names),
    ("different element types", cross),
    ("one-sided comparison", one_sided),
    ("clone", clones),
    ("clone", clones),
    ("default", defaults),
    ("failing elements", failing),
];

/// Types with a total order, which the elements of a list can be drawn from.
pub trait El: Ord + Hash + Debug + Serialize + 'static {
    fn draw(r: &mut Rng) -> Box<Self>;
    fn dup(&self) -> Box<Self>;
    fn copies(v: &mut UnsizedVec<Self>, x: &Self) {
        let b = elem(|| x.dup());
        sut(|| push_val!(v, b));
    }
}

fn small(r: &mut Rng) -> usize {
    *r.pick(&[0usize, 0, 1, 1, 2, 3, 3, 5, 9])
}
impl El for [u8] {
    fn draw(r: &mut Rng) -> Box<Self> {
        (0..small(r)).map(|_| *r.pick(&[0u8, 1, 255])).collect()
    }
    fn dup(&self) -> Box<Self> {
        self.into()
    }
    fn copies(v: &mut UnsizedVec<Self>, x: &Self) {
        sut(|| v.push_with(x.into()));
    }
}
impl El for [u32] {
    fn draw(r: &mut Rng) -> Box<Self> {
        (0..small(r)).map(|_| *r.pick(&[0u32, 1, 256, u32::MAX])).collect()
    }
    fn dup(&self) -> Box<Self> {
        self.into()
    }
}
impl El for [()] {
    fn draw(r: &mut Rng) -> Box<Self> {
        vec![(); small(r)].into()
    }
    fn dup(&self) -> Box<Self> {
        self.into()
    }
}
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
#[repr(align(32))]
pub struct Big(u64);
impl Serialize for Big {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_u64(self.0)
    }
}
impl El for [Big] {
    fn draw(r: &mut Rng) -> Box<Self> {
        (0..small(r)).map(|_| Big(*r.pick(&[0u64, 1, u64::MAX]))).collect()
    }
    fn dup(&self) -> Box<Self> {
        self.into()
    }
}
impl El for str {
    fn draw(r: &mut Rng) -> Box<Self> {
        (0..small(r)).map(|_| *r.pick(&['a', 'b', '"', 'é', '🦀', '\n'])).collect::<String>().into()
    }
    fn dup(&self) -> Box<Self> {
        self.into()
    }
    fn copies(v: &mut UnsizedVec<Self>, x: &Self) {
        sut(|| v.push_with(x.into()));
    }
}
impl El for u32 {
    fn draw(r: &mut Rng) -> Box<Self> {
        Box::new(*r.pick(&[0u32, 1, 256, u32::MAX]))
    }
    fn dup(&self) -> Box<Self> {
        Box::new(*self)
    }
}
impl El for () {
    fn draw(_: &mut Rng) -> Box<Self> {
        Box::new(())
    }
    fn dup(&self) -> Box<Self> {
        Box::new(())
    }
}
impl El for String {
    fn draw(r: &mut Rng) -> Box<Self> {
        Box::new(str::draw(r).into())
    }
    fn dup(&self) -> Box<Self> {
        Box::new(self.clone())
    }
}

/// A struct whose last field is a slice.
#[derive(PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
#[repr(C)]
pub struct TailOf<T: ?Sized> {
    head: u8,
    tail: T,
}
pub type Tail = TailOf<[u16]>;
impl Serialize for Tail {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        (self.head, &self.tail).serialize(s)
    }
}
impl El for Tail {
    fn draw(r: &mut Rng) -> Box<Self> {
        let h = r.below(2) as u8;
        let x = |r: &mut Rng| *r.pick(&[0u16, 7, 300]);
        match r.below(4) {
            0 => Box::new(TailOf { head: h, tail: [] }),
            1 => Box::new(TailOf { head: h, tail: [x(r)] }),
            2 => Box::new(TailOf { head: h, tail: [x(r), x(r)] }),
            _ => Box::new(TailOf { head: h, tail: [x(r), x(r), x(r), 5, 5] }),
        }
    }
    fn dup(&self) -> Box<Self> {
        let h = self.head;
        match &self.tail {
            [] => Box::new(TailOf { head: h, tail: [] }),
            [a] => Box::new(TailOf { head: h, tail: [*a] }),
            [a, b] => Box::new(TailOf { head: h, tail: [*a, *b] }),
            [a, b, c, ..] => Box::new(TailOf { head: h, tail: [*a, *b, *c, 5, 5] }),
        }
    }
}

/// Trait objects of mixed size and alignment, ordered by what they stand for.
pub trait Own {
    fn key(&self) -> (u32, u64);
    fn dup(&self) -> Box<dyn Own>;
}
macro_rules! own_types {
    ($($t:ident $n:literal $al:literal $f:ty;)*) => {$(
        #[derive(Clone)]
        #[repr(align($al))]
        struct $t($f);
        impl Own for $t {
            fn key(&self) -> (u32, u64) {
                ($n, self.0.clone() as u64)
            }
            fn dup(&self) -> Box<dyn Own> {
                Box::new(self.clone())
            }
        }
    )*};
}
own_types! {
    O1 1 1 u8;
    O2 2 2 u16;
    O4 4 4 u32;
    O8 8 8 u64;
    O32 32 32 u8;
    O64 64 64 u64;
}
#[derive(Clone)]
struct O0;
impl Own for O0 {
    fn key(&self) -> (u32, u64) {
        (0, 0)
    }
    fn dup(&self) -> Box<dyn Own> {
        Box::new(O0)
    }
}
struct OB(Box<u64>);
impl Own for OB {
    fn key(&self) -> (u32, u64) {
        (3, *self.0)
    }
    fn dup(&self) -> Box<dyn Own> {
        Box::new(OB(self.0.clone()))
    }
}
impl PartialEq for dyn Own {
    fn eq(&self, o: &dyn Own) -> bool {
        self.key() == o.key()
    }
}
impl Eq for dyn Own {}
impl PartialOrd for dyn Own {
    fn partial_cmp(&self, o: &dyn Own) -> Option<Ordering> {
        Some(self.key().cmp(&o.key()))
    }
}
impl Ord for dyn Own {
    fn cmp(&self, o: &dyn Own) -> Ordering {
        self.key().cmp(&o.key())
    }
}
impl Hash for dyn Own {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.key().hash(h);
    }
}
impl Debug for dyn Own {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        f.debug_struct("Own").field("key", &self.key()).finish()
    }
}
impl Serialize for dyn Own {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.key().serialize(s)
    }
}
impl El for dyn Own {
    fn draw(r: &mut Rng) -> Box<Self> {
        match r.below(8) {
            0 => Box::new(O0),
            1 => Box::new(O1(r.below(2) as u8)),
            2 => Box::new(O2(r.below(2) as u16)),
            3 => Box::new(O4(r.below(2) as u32)),
            4 => Box::new(O8(r.below(2) as u64)),
            5 => Box::new(O32(r.below(2) as u8)),
            6 => Box::new(O64(r.below(2) as u64)),
            _ => Box::new(OB(Box::new(r.below(2) as u64))),
        }
    }
    fn dup(&self) -> Box<Self> {
        Own::dup(self)
    }
}

// ---------------------------------------------------------------- two lists

fn list<T: El + ?Sized>(r: &mut Rng) -> Vec<Box<T>> {
    let n = match r.below(12) {
        0 => 0,
        1 => r.range(10, 40),
        _ => r.range(1, 6),
    };
    elem(|| {
        let mut v = Vec::new();
        let favourite = T::draw(r);
        for _ in 0..n {
            v.push(if r.chance(1, 4) { favourite.dup() } else { T::draw(r) });
        }
        v
    })
}

/// Another list: equal, a prefix, or with one element changed, added, removed or moved.
fn near<T: El + ?Sized>(a: &[Box<T>], r: &mut Rng) -> Vec<Box<T>> {
    elem(|| {
        let mut v: Vec<Box<T>> = a.iter().map(|x| x.dup()).collect();
        match r.below(8) {
            0 | 1 => {}
            2 => v.truncate(r.below(v.len() + 1)),
            3 => v.push(T::draw(r)),
            4 if !v.is_empty() => {
                let i = r.below(v.len());
                v[i] = T::draw(r);
            }
            5 if !v.is_empty() => {
                let n = v.len();
                v[n - 1] = T::draw(r);
            }
            6 if !v.is_empty() => {
                v.remove(r.below(v.len()));
            }
            7 if v.len() > 1 => {
                let (i, j) = (r.below(v.len()), r.below(v.len()));
                v.swap(i, j);
            }
            _ => {
                let at = r.below(v.len() + 1);
                v.insert(at, T::draw(r));
            }
        }
        v
    })
}

/// A vec with these elements, built one way or another.
fn built<T: El + ?Sized>(m: &[Box<T>], r: &mut Rng) -> UnsizedVec<T> {
    let mut v = match r.below(4) {
        0 => UnsizedVec::with_capacity(r.below(20)),
        1 => UnsizedVec::with_capacity_bytes(r.below(20), r.below(200)),
        2 => UnsizedVec::with_capacity_bytes_align(r.below(20), r.below(200), 1 << r.below(7)),
        _ => UnsizedVec::new(),
    };
    let detour = r.below(4);
    for (i, x) in m.iter().enumerate() {
        if detour == 1 && r.chance(1, 3) {
            // something that comes and goes again
            let b = elem(|| T::draw(r));
            sut(|| insert_val!(v, i / 2, b));
            sut(|| drop(v.remove_into(i / 2)));
        }
        if detour == 2 && r.chance(1, 2) {
            T::copies(&mut v, x);
        } else {
            let b = elem(|| x.dup());
            match r.below(3) {
                0 => sut(|| push_val!(v, b)),
                1 => sut(|| v.push_with(from_box(b))),
                _ => sut(|| v.push_with(b.into())),
            }
        }
    }
    if r.chance(1, 3) {
        sut(|| v.shrink_to_fit());
    }
    v
}

fn pad_debug(f: u8, x: &dyn Debug) -> String {
    match f {
        0 => format!("{x:?}"),
        1 => format!("{x:#?}"),
        2 => format!("{x:5?}"),
        3 => format!("{x:#x?}"),
        4 => format!("{x:02X?}"),
        _ => format!("{x:+.1?}"),
    }
}

fn rec<T: Serialize + ?Sized>(x: &T, refuse: usize) -> (String, bool) {
    own(|| {
        let mut s = Rec { refuse, ..Rec::default() };
        let ok = x.serialize(&mut s).is_ok();
        (s.out, ok)
    })
}
fn hashes<T: Hash + ?Sized>(x: &T) -> (Vec<u8>, u64) {
    own(|| {
        let mut b = Bytes::default();
        x.hash(&mut b);
        let mut d = DefaultHasher::new();
        x.hash(&mut d);
        (b.0, d.finish())
    })
}

fn finish(since: u64) {
    count("checks", 1);
    poll();
    expect_clean(since, false);
}

fn pair<T: El + ?Sized>(r: &mut Rng) {
    let since = heap::seq();
    let ma = list::<T>(r);
    let mb = if r.chance(1, 6) { list::<T>(r) } else { near(&ma, r) };
    logf!("{ma:?} against {mb:?}");
    calm("traits", || {
        let a = built(&ma, r);
        let b = built(&mb, r);
        let (ra, rb): (Vec<&T>, Vec<&T>) = own(|| (ma.iter().map(|x| &**x).collect(), mb.iter().map(|x| &**x).collect()));
        ensure!(a.len() == ra.len() && b.len() == rb.len(), Model, "lengths are {} and {}, expected {} and {}", a.len(), b.len(), ra.len(), rb.len());
        let c = ra.cmp(&rb);
        print(hash_all(&[8000, hashes(&ra).1, hashes(&rb).1, std::any::type_name::<T>().len() as u64]));
        count("observations", (ra.len() + rb.len()) as u64);
        for (what, got, want) in [
            ("==", a == b, ra == rb),
            ("!=", a != b, ra != rb),
            ("<", a < b, ra < rb),
            ("<=", a <= b, ra <= rb),
            (">", a > b, ra > rb),
            (">=", a >= b, ra >= rb),
            ("== itself", a == a, true),
            ("< itself", a < a, false),
            ("<= itself", a <= a, true),
            ("== (reversed)", b == a, ra == rb),
            ("> (reversed)", b > a, rb > ra),
        ] {
            ensure!(got == want, Trait, "{ra:?} {what} {rb:?} is {got}");
        }
        ensure!(a.cmp(&b) == c, Trait, "{ra:?}.cmp({rb:?}) is {:?}", a.cmp(&b));
        ensure!(b.cmp(&a) == c.reverse(), Trait, "{rb:?}.cmp({ra:?}) is {:?}", b.cmp(&a));
        ensure!(a.partial_cmp(&b) == Some(c), Trait, "{ra:?}.partial_cmp({rb:?}) is {:?}", a.partial_cmp(&b));
        ensure!(a.cmp(&a) == Ordering::Equal && a.partial_cmp(&a) == Some(Ordering::Equal), Trait, "{ra:?}.cmp(itself) is {:?}", a.cmp(&a));
        count("comparisons", 15);
        let (ha, hb) = (hashes(&a), hashes(&b));
        ensure!(ra != rb || ha == hb, Trait, "equal vecs {ra:?} hash differently: {:x?} and {:x?}", ha.0, hb.0);
        ensure!(hashes(&a) == ha, Trait, "the hash of {ra:?} changes");
        // the elements themselves decide the hash
        let each: usize = own(|| ra.iter().map(|x| hashes(*x).0.len()).sum());
        ensure!(ha.0.len() >= each, Trait, "the hash of {ra:?} covers {} bytes, its elements cover {each}", ha.0.len());
        for f in 0..6 {
            let (got, want) = own(|| (pad_debug(f, &a), pad_debug(f, &ra)));
            ensure!(got == want, Trait, "Debug (style {f}) of {ra:?} printed {got}");
            own(|| drop((got, want)));
        }
        let k = r.below(ra.len() + 2);
        let (got, want) = (rec(&a, k), rec(&ra, k));
        ensure!(got == want, Trait, "Serialize of {ra:?} emitted {got:?}, expected {want:?}");
        count("prints", 7);
        for (i, x) in ra.iter().enumerate() {
            ensure!(a[i] == **x && a.get(i).is_some_and(|y| y == *x), Trait, "element {i} of {ra:?} is {:?}", &a[i]);
        }
        own(|| drop((ra, rb, ha, hb, got, want)));
        sut(|| drop((a, b)));
    });
    elem(|| drop((ma, mb)));
    finish(since);
}

// ---------------------------------------------------------------- partial orders

fn partial(_: &str, r: &mut Rng) {
    let since = heap::seq();
    let vals = [f64::NAN, 0.0, -0.0, 1.0, -1.0, f64::INFINITY];
    let gen = |r: &mut Rng| -> Vec<Vec<f64>> { own(|| (0..r.below(5)).map(|_| (0..r.below(3)).map(|_| *r.pick(&vals)).collect::<Vec<f64>>()).collect()) };
    let ma = gen(r);
    let mut mb = own(|| ma.clone());
    if r.chance(1, 2) && !mb.is_empty() {
        let i = r.below(mb.len());
        own(|| mb[i] = (0..r.below(3)).map(|_| *r.pick(&vals)).collect::<Vec<f64>>());
    }
    if r.chance(1, 3) {
        own(|| mb.push(vec![*r.pick(&vals)]));
    }
    logf!("{ma:?} against {mb:?}");
    calm("floats", || {
        let build = |m: &[Vec<f64>]| {
            let mut v: UnsizedVec<[f64]> = UnsizedVec::new();
            for x in m {
                sut(|| v.push_with(x.as_slice().into()));
            }
            v
        };
        let (a, b) = (build(&ma), build(&mb));
        print(hash_all(&[8001, ma.partial_cmp(&mb).map_or(9, |c| c as u64), ma.len() as u64]));
        ensure!(a.partial_cmp(&b) == ma.partial_cmp(&mb), Trait, "{ma:?}.partial_cmp({mb:?}) is {:?}", a.partial_cmp(&b));
        for (what, got, want) in [
            ("==", a == b, ma == mb),
            ("!=", a != b, ma != mb),
            ("<", a < b, ma < mb),
            ("<=", a <= b, ma <= mb),
            (">", a > b, ma > mb),
            (">=", a >= b, ma >= mb),
            ("== itself", a == a, ma == ma),
            ("!= itself", a != a, ma != ma),
            ("< itself", a < a, ma < ma),
            ("<= itself", a <= a, ma <= ma),
            (">= itself", a >= a, ma >= ma),
        ] {
            ensure!(got == want, Trait, "{ma:?} {what} {mb:?} is {got}");
        }
        ensure!(a.partial_cmp(&a) == ma.partial_cmp(&ma), Trait, "{ma:?}.partial_cmp(itself) is {:?}", a.partial_cmp(&a));
        count("comparisons", 13);
        // sized elements
        let fa: Vec<f64> = own(|| ma.concat());
        let fb: Vec<f64> = own(|| mb.concat());
        let (sa, sb): (UnsizedVec<f64>, UnsizedVec<f64>) = sut(|| (fa.clone().into(), fb.clone().into()));
        ensure!(sa.partial_cmp(&sb) == fa.partial_cmp(&fb) && (sa == sb) == (fa == fb) && (sa < sb) == (fa < fb) && (sa >= sb) == (fa >= fb),
            Trait, "{fa:?} and {fb:?} compare wrongly: {:?}", sa.partial_cmp(&sb));
        ensure!(sa.partial_cmp(&sa) == fa.partial_cmp(&fa) && (sa == sa) == (fa == fa) && (sa <= sa) == (fa <= fa) && (sa > sa) == (fa > fa),
            Trait, "{fa:?} compares wrongly with itself: {:?}", sa.partial_cmp(&sa));
        sut(|| drop((sa, sb)));
        own(|| drop((fa, fb)));
        sut(|| drop((a, b)));
    });
    own(|| drop((ma, mb)));
    finish(since);
}

// ---------------------------------------------------------------- names

/// The same in another encoding, which is not UTF-8.
fn raw(w: &str) -> Vec<u8> {
    w.chars().map(|c| c as u8).collect()
}
fn names(_: &str, r: &mut Rng) {
    let since = heap::seq();
    let n = r.below(6);
    let words: Vec<String> = own(|| (0..n).map(|_| (0..r.below(4)).map(|_| *r.pick(&['a', 'b', '/', '.', 'é'])).collect::<String>()).collect());
    let mut other = own(|| words.clone());
    if r.chance(2, 3) && n > 0 {
        let i = r.below(n);
        own(|| other[i].push('x'));
    }
    logf!("{words:?} against {other:?}");
    print(hash_all(&[8002, n as u64, u64::from(words == other)]));
    calm("names", || {
        let mut cs: [UnsizedVec<CStr>; 2] = [UnsizedVec::new(), UnsizedVec::new()];
        let mut os: [UnsizedVec<OsStr>; 2] = [UnsizedVec::new(), UnsizedVec::new()];
        let mut ps: [UnsizedVec<Path>; 2] = [UnsizedVec::new(), UnsizedVec::new()];
        let (mut mc, mut mo, mut mp) = ([Vec::new(), Vec::new()], [Vec::new(), Vec::new()], [Vec::new(), Vec::new()]);
        for (i, ws) in [&words, &other].into_iter().enumerate() {
            for w in ws {
                let c = own(|| CString::new(raw(w)).unwrap());
                let o = own(|| mon::kinds::os_string(raw(w)));
                let p = own(|| PathBuf::from(mon::kinds::os_string(raw(w))));
                sut(|| cs[i].push_with((&*c).into()));
                sut(|| os[i].push_with((&*o).into()));
                sut(|| ps[i].push_with((&*p).into()));
                own(|| {
                    mc[i].push(c);
                    mo[i].push(o);
                    mp[i].push(p);
                });
            }
        }
        macro_rules! both {
            ($v:ident $m:ident) => {{
                let ([a, b], [x, y]) = (&$v, &$m);
                ensure!(a.cmp(b) == x.cmp(y) && a.partial_cmp(b) == x.partial_cmp(y) && (a == b) == (x == y) && (a < b) == (x < y),
                    Trait, "{x:?} and {y:?} compare as {:?}", a.cmp(b));
                ensure!(x != y || hashes(a) == hashes(b), Trait, "equal vecs {x:?} hash differently");
                let (got, want) = own(|| (format!("{a:?} {a:#?}"), format!("{x:?} {x:#?}")));
                ensure!(got == want, Trait, "Debug of {x:?} printed {got}");
                own(|| drop((got, want)));
                count("comparisons", 4);
            }};
        }
        both!(cs mc);
        both!(os mo);
        both!(ps mp);
        let (got, want) = (rec(&ps[0], 0), rec(&mp[0], 0));
        ensure!(got == want, Trait, "Serialize of {:?} emitted {got:?}", mp[0]);
        own(|| drop((got, want)));
        own(|| drop((mc, mo, mp)));
        sut(|| drop((cs, os, ps)));
    });
    own(|| drop((words, other)));
    finish(since);
}

// ---------------------------------------------------------------- different types

fn cross(_: &str, r: &mut Rng) {
    let since = heap::seq();
    let n = r.below(6);
    let nums: Vec<[u32; 2]> = own(|| (0..n).map(|_| [r.below(2) as u32, r.below(2) as u32]).collect());
    let mut slices: Vec<Vec<u32>> = own(|| nums.iter().map(|x| x.to_vec()).collect());
    match r.below(6) {
        0 | 1 => {}
        2 if n > 0 => {
            let i = r.below(n);
            own(|| slices[i].push(1));
        }
        3 if n > 0 => {
            let i = r.below(n);
            slices[i][r.below(2)] ^= 1;
        }
        4 => own(|| slices.push(vec![0, 0])),
        _ => {
            own(|| slices.pop());
        }
    }
    let words: Vec<String> = own(|| (0..n).map(|_| (0..r.below(3)).map(|_| *r.pick(&['a', 'b'])).collect::<String>()).collect());
    let mut other = own(|| words.clone());
    if r.chance(1, 2) && n > 0 {
        let i = r.below(n);
        own(|| other[i].push('a'));
    } else if r.chance(1, 3) {
        own(|| other.pop());
    }
    logf!("{nums:?} against {slices:?}; {words:?} against {other:?}");
    print(hash_all(&[8003, n as u64, size_class(slices.len()), size_class(other.len())]));
    calm("different types", || {
        let mut s: UnsizedVec<[u32]> = UnsizedVec::new();
        let mut a: UnsizedVec<[u32; 2]> = UnsizedVec::new();
        for x in &slices {
            sut(|| s.push_with(x.as_slice().into()));
        }
        for x in &nums {
            sut(|| a.push(*x));
        }
        let equal = slices.len() == nums.len() && slices.iter().zip(&nums).all(|(x, y)| x == y);
        ensure!((s == a) == equal && (a == s) == equal && (s != a) != equal, Trait, "{slices:?} == {nums:?} is {}", s == a);
        let mut st: UnsizedVec<str> = UnsizedVec::new();
        let mut so: UnsizedVec<String> = UnsizedVec::new();
        let mut co: UnsizedVec<Cow<'static, str>> = UnsizedVec::new();
        let mut os: UnsizedVec<OsStr> = UnsizedVec::new();
        let mut pa: UnsizedVec<Path> = UnsizedVec::new();
        for w in &words {
            sut(|| st.push_with(w.as_str().into()));
        }
        for w in &other {
            let (w1, w2) = elem(|| (w.clone(), w.clone()));
            sut(|| so.push(w1));
            sut(|| co.push(Cow::Owned(w2)));
            sut(|| os.push_with(OsStr::new(w.as_str()).into()));
            sut(|| pa.push_with(Path::new(w.as_str()).into()));
        }
        let e = words == other;
        ensure!((st == so) == e && (so == st) == e && (st == co) == e && (co == st) == e && (st == os) == e && (os == st) == e && (st != so) != e,
            Trait, "{words:?} == {other:?} is {}", st == so);
        ensure!(os.partial_cmp(&st) == other.partial_cmp(&words) && (os < st) == (other < words) && (os >= st) == (other >= words), Trait, "{other:?}.partial_cmp({words:?}) is {:?}", os.partial_cmp(&st));
        let paths: Vec<&Path> = own(|| other.iter().map(Path::new).collect());
        let oss: Vec<&OsStr> = own(|| other.iter().map(OsStr::new).collect());
        let want = paths.iter().zip(&oss).map(|(p, o)| (**p).partial_cmp(*o)).find(|c| *c != Some(Ordering::Equal)).unwrap_or(Some(Ordering::Equal));
        ensure!(pa.partial_cmp(&os) == want && os.partial_cmp(&pa) == want, Trait, "paths and os strings {other:?} compare as {:?}", pa.partial_cmp(&os));
        own(|| drop((paths, oss)));
        count("comparisons", 18);
        sut(|| drop((s, a, st, so, co, os, pa)));
    });
    own(|| drop((nums, slices, words, other)));
    finish(since);
}

thread_local! {
    static ASKED: Cell<usize> = const { Cell::new(0) };
}
/// `Left` compares with `Right` in its own way; there is no way back.
struct Left(i32);
struct Right(i32);
impl PartialEq<Right> for Left {
    fn eq(&self, o: &Right) -> bool {
        ASKED.set(ASKED.get() + 1);
        self.0 == 2 * o.0
    }
    fn ne(&self, o: &Right) -> bool {
        self.0 != 2 * o.0
    }
}
impl PartialOrd<Right> for Left {
    fn partial_cmp(&self, o: &Right) -> Option<Ordering> {
        ASKED.set(ASKED.get() + 1);
        if o.0 == 13 {
            return None;
        }
        self.0.partial_cmp(&(2 * o.0))
    }
}

fn one_sided(_: &str, r: &mut Rng) {
    let since = heap::seq();
    let n = r.below(6);
    let mr: Vec<i32> = own(|| (0..n).map(|_| *r.pick(&[1, 2, 3, 13])).collect());
    let mut ml: Vec<i32> = own(|| mr.iter().map(|x| 2 * x).collect());
    match r.below(4) {
        0 => {}
        1 if n > 0 => ml[r.below(n)] += *r.pick(&[1, -1]),
        2 => {
            own(|| ml.pop());
        }
        _ => own(|| ml.push(1)),
    }
    logf!("{ml:?} against twice {mr:?}");
    let want_eq = ml.len() == mr.len() && ml.iter().zip(&mr).all(|(l, r)| *l == 2 * r);
    let mut want = None;
    let mut decided = false;
    for (l, r) in ml.iter().zip(&mr) {
        let c = if *r == 13 { None } else { l.partial_cmp(&(2 * r)) };
        if c != Some(Ordering::Equal) {
            want = c;
            decided = true;
            break;
        }
    }
    if !decided {
        want = Some(ml.len().cmp(&mr.len()));
    }
    print(hash_all(&[8004, n as u64, u64::from(want_eq), want.map_or(9, |c| c as u64)]));
    calm("one-sided comparison", || {
        let mut a: UnsizedVec<Left> = UnsizedVec::new();
        let mut b: UnsizedVec<Right> = UnsizedVec::new();
        for x in &ml {
            sut(|| a.push(Left(*x)));
        }
        for x in &mr {
            sut(|| b.push_unsize_or(*x));
        }
        ASKED.set(0);
        ensure!((a == b) == want_eq, Trait, "{ml:?} == twice {mr:?} is {}", a == b);
        ensure!(a.partial_cmp(&b) == want, Trait, "{ml:?} against twice {mr:?} is {:?}, expected {want:?}", a.partial_cmp(&b));
        ensure!((a < b) == (want == Some(Ordering::Less)) && (a >= b) == matches!(want, Some(Ordering::Greater | Ordering::Equal)), Trait, "{ml:?} < twice {mr:?} is {}", a < b);
        count("comparisons", 4);
        sut(|| drop((a, b)));
    });
    own(|| drop((ml, mr)));
    finish(since);
}
trait PushRight {
    fn push_unsize_or(&mut self, x: i32);
}
impl PushRight for UnsizedVec<Right> {
    fn push_unsize_or(&mut self, x: i32) {
        self.push(Right(x));
    }
}

// ---------------------------------------------------------------- clone

fn clones(_: &str, r: &mut Rng) {
    match r.below(8) {
        0 => clone_of::<Z1>(r),
        1 => clone_of::<Z16>(r),
        2 => clone_of::<B3>(r),
        3 => clone_of::<Q24>(r),
        4 => clone_of::<X48>(r),
        5 => clone_of::<L64>(r),
        _ => clone_of::<Hb>(r),
    }
}

fn obs<T: Tok>(v: &UnsizedVec<T>) -> Vec<Desc> {
    own(|| v.iter().map(|t| Desc::new(T::CLS, vec![value(t)])).collect())
}

fn clone_of<T: Tok + Clone>(r: &mut Rng) {
    let since = heap::seq();
    let n = r.below(9);
    let hostile = r.chance(1, 3);
    print(hash_all(&[8005, u64::from(T::CLS), n as u64, u64::from(hostile)]));
    logf!("cloning {n} of class {}, a panic: {hostile}", T::CLS);
    let mut fired = false;
    calm("clone", || {
        let mut v: UnsizedVec<T> = match r.below(3) {
            0 => UnsizedVec::with_capacity(r.below(12)),
            1 => UnsizedVec::with_capacity_bytes(r.below(12), r.below(600)),
            _ => UnsizedVec::new(),
        };
        for _ in 0..n {
            let t = T::fresh();
            sut(|| v.push(t));
        }
        let before = obs(&v);
        let addr = v.iter().next().map(|t| std::ptr::from_ref(t).addr());
        let live = reg::live_total();
        let (born, _, _) = reg::totals();
        if hostile {
            reg::fuse_set(r.range(1, n + 1) as i64, reg::EV_CLONE);
        }
        let into = r.chance(1, 3);
        let mut target: UnsizedVec<T> = UnsizedVec::new();
        let extra = if into { r.below(4) } else { 0 };
        for _ in 0..extra {
            let t = T::fresh();
            sut(|| target.push(t));
        }
        let (born0, _, _) = reg::totals();
        let c = catch(|| {
            sut(|| {
                if into {
                    target.clone_from(&v);
                    std::mem::take(&mut target)
                } else {
                    v.clone()
                }
            })
        });
        fired = reg::fuse_fired() != 0;
        reg::fuse_off();
        ensure!(born0 == born + extra as u64, Own, "making the target of clone_from made other values too");
        match c {
            Ok(mut c) => {
                ensure!(!fired, Panic, "a panicking clone() went unnoticed");
                sut(|| drop(target));
                let (born1, _, _) = reg::totals();
                ensure!(born1 == born0 + n as u64, Own, "cloning {n} elements made {} values", born1 - born0);
                ensure!(reg::live_total() == live + n as i64, Own, "after cloning {n} elements {} more values are alive", reg::live_total() - live);
                let got = obs(&c);
                ensure!(got == before, Trait, "the clone holds {got:?}, the original {before:?}");
                ensure!(c.len() == n, Trait, "the clone has {} elements of {n}", c.len());
                if size_of::<T>() > 0 && n > 0 {
                    let a2 = c.iter().next().map(|t| std::ptr::from_ref(t).addr());
                    ensure!(addr != a2, Trait, "the clone shares memory with its original");
                }
                ensure!(c.align() == v.align(), Trait, "the alignment of the clone is {}, of the original {}", c.align(), v.align());
                count("clones", 1);
                // what happens to one does not happen to the other
                for _ in 0..r.below(6) {
                    let (x, y) = if r.chance(1, 2) { (&mut c, &v) } else { (&mut v, &c) };
                    let other = obs(y);
                    match r.below(4) {
                        0 => {
                            let t = T::fresh();
                            let at = r.below(x.len() + 1);
                            sut(|| x.insert(at, t));
                        }
                        1 if !x.is_empty() => {
                            let at = r.below(x.len());
                            sut(|| drop(x.remove_into(at)));
                        }
                        2 if !x.is_empty() => {
                            let at = r.below(x.len());
                            x[at] = T::fresh();
                        }
                        _ => sut(|| x.shrink_to_fit()),
                    }
                    ensure!(obs(y) == other, Trait, "changing a vec changed its clone or original");
                    own(|| drop(other));
                }
                sut(|| drop(c));
                poll();
                let rest = obs(&v);
                ensure!(rest.len() == v.len(), Own, "the original lost elements when its clone was dropped");
                own(|| drop((got, rest)));
            }
            Err(Caught::Injected) => {
                ensure!(fired, Panic, "a panic out of nowhere");
                count("injected_panics", 1);
                let now = obs(&v);
                ensure!(now == before, Trait, "a panicking clone changed the original");
                own(|| drop(now));
                sut(|| drop(target));
                ensure!(reg::live_total() == live, Own, "a panicking clone left {} values behind", reg::live_total() - live);
            }
            Err(e) => fail!(Panic, "clone: unexpected panic {e:?}"),
        }
        own(|| drop(before));
        sut(|| drop(v));
    });
    finish(since);
}

// ---------------------------------------------------------------- default

fn defaults(_: &str, r: &mut Rng) {
    let since = heap::seq();
    fn empty<T: ?Sized + El>(r: &mut Rng) {
        let c0 = heap::counts();
        let mut v: UnsizedVec<T> = sut(Default::default);
        let c1 = heap::counts();
        ensure!(c1.allocs == c0.allocs && v.is_empty() && v.len() == 0 && v.byte_len() == 0 && v.get(0).is_none() && v.iter().next().is_none(),
            Trait, "the default vec is not empty");
        let w: UnsizedVec<T> = UnsizedVec::new();
        ensure!(v == w && v.cmp(&w) == Ordering::Equal && hashes(&v) == hashes(&w), Trait, "the default vec differs from a new one");
        let s = own(|| format!("{v:?} {v:#?}"));
        ensure!(s == "[] []", Trait, "the default vec prints as {s}");
        own(|| drop(s));
        let s = rec(&v, 0);
        ensure!(s.0 == "[Some(0): ] ", Trait, "the default vec is serialised as {}", s.0);
        own(|| drop(s));
        ensure!(sut(|| v.pop_into().is_none()), Trait, "the default vec has something to pop");
        let b = elem(|| T::draw(r));
        sut(|| push_val!(v, b));
        ensure!(v.len() == 1 && v != w && v > w, Trait, "a vec with one element compares equal to an empty one");
        sut(|| drop((v, w)));
    }
    let k = r.below(8);
    print(hash_all(&[8006, k as u64]));
    logf!("default, type {k}");
    calm("default", || match k {
        0 => empty::<str>(r),
        1 => empty::<[u32]>(r),
        2 => empty::<dyn Own>(r),
        3 => empty::<u32>(r),
        4 => empty::<()>(r),
        5 => empty::<[()]>(r),
        6 => empty::<Tail>(r),
        _ => empty::<String>(r),
    });
    finish(since);
}

// ---------------------------------------------------------------- failures

/// Elements whose formatting or comparison fails.
struct Bad(u32);
impl Debug for Bad {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        if self.0 == 3 {
            return Err(std::fmt::Error);
        }
        write!(f, "{}", self.0)
    }
}
impl PartialEq for Bad {
    fn eq(&self, o: &Bad) -> bool {
        reg::event(reg::EV_BODY);
        self.0 == o.0
    }
}
impl PartialOrd for Bad {
    fn partial_cmp(&self, o: &Bad) -> Option<Ordering> {
        reg::event(reg::EV_BODY);
        self.0.partial_cmp(&o.0)
    }
}

fn failing(_: &str, r: &mut Rng) {
    use std::fmt::Write;
    let since = heap::seq();
    let n = r.below(6);
    let m: Vec<u32> = own(|| (0..n).map(|_| r.below(5) as u32).collect());
    let fuse = r.range(1, 6);
    print(hash_all(&[8007, n as u64, u64::from(m.contains(&3)), fuse as u64]));
    logf!("{m:?}, a panic at comparison {fuse}");
    calm("failing elements", || {
        let mut v: UnsizedVec<Bad> = UnsizedVec::new();
        let mut w: UnsizedVec<Bad> = UnsizedVec::new();
        for x in &m {
            sut(|| v.push(Bad(*x)));
            sut(|| w.push(Bad(*x)));
        }
        let bads: Vec<Bad> = own(|| m.iter().map(|x| Bad(*x)).collect());
        let (got, want) = own(|| {
            let (mut a, mut b) = (String::new(), String::new());
            let (x, y) = (write!(a, "{v:?}").is_ok(), write!(b, "{bads:?}").is_ok());
            ((a, x), (b, y))
        });
        ensure!(got == want, Trait, "Debug of {m:?} with a failing element gave {got:?}, expected {want:?}");
        own(|| drop((got, want)));
        reg::fuse_set(fuse as i64, reg::EV_BODY);
        let a = catch(|| sut(|| v == w));
        let fired = reg::fuse_fired() != 0;
        reg::fuse_off();
        match a {
            Ok(e) => ensure!(e && !fired, Trait, "equal vecs compare as {e} (a panic swallowed: {fired})"),
            Err(_) => ensure!(fired, Panic, "comparing panicked"),
        }
        ensure!(v.partial_cmp(&w) == Some(Ordering::Equal) && v.len() == n, Trait, "after a panicking comparison the vecs differ");
        own(|| drop(bads));
        sut(|| drop((v, w)));
    });
    own(|| drop(m));
    finish(since);
}
