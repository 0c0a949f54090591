//! The kinds of element an UnsizedVec is exercised with.

use crate::ctx;
use crate::heap::{elem, own, sut};
use crate::reg;
use crate::rng::Rng;
use crate::toks::*;
use emplacable::{Emplacable, EmplacableFn};
use std::ffi::{CStr, CString};
use std::marker::{PhantomData, Unsize};
use std::path::Path;
use unsized_vec::UnsizedVec;

/// What an element is, as far as the outside can tell: its class (concrete
/// type for trait objects) and the values of its parts (their number is the length).
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Desc {
    pub cls: u16,
    pub ids: Vec<u64>,
}
impl Desc {
    pub fn new(cls: u16, ids: Vec<u64>) -> Self {
        Desc { cls, ids }
    }
}
fn d1(cls: u16, id: u64) -> Desc {
    own(|| Desc { cls, ids: vec![id] })
}

/// Choices that hold for a whole case.
#[derive(Clone, Debug)]
pub struct Prof {
    /// classes used for trait objects
    pub classes: Vec<u16>,
    /// longest slice
    pub max_len: usize,
}

pub const ALL_CLASSES: [u16; 20] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20];

impl Prof {
    pub fn draw(r: &mut Rng) -> Prof {
        own(|| {
            let classes: Vec<u16> = match r.below(8) {
                0 => vec![4, 5, 19],                             // align 1
                1 => vec![4, 5, 6, 7, 8, 9, 10, 11, 19, 20, 1],  // at most usize
                2 => vec![1, 2, 3, 4],                           // mostly zero-sized, over-aligned
                3 => vec![5, 12, 14, 19],
                4 => {
                    let n = r.range(2, 4);
                    (0..n).map(|_| *r.pick(&ALL_CLASSES)).collect()
                }
                5 => vec![5, 7, 9, 13, 16, 19],
                6 => ALL_CLASSES[..16].to_vec(),
                _ => ALL_CLASSES.to_vec(),
            };
            let max_len = *r.pick(&[2, 3, 4, 6, 6, 12, 40]);
            let max_len = if cfg!(miri) { max_len.min(3) } else { max_len };
            Prof { classes, max_len }
        })
    }
    pub fn len(&self, r: &mut Rng) -> usize {
        match r.below(6) {
            0 => 0,
            1 => 1,
            _ => r.range(0, self.max_len),
        }
    }
}

/// Adds the value in a box by value. Miri does not know unsized values.
#[macro_export]
macro_rules! by_value {
    ($s:expr, $b:expr) => {{
        #[cfg(not(miri))]
        {
            $s.val(*$b)
        }
        #[cfg(miri)]
        {
            $s.emp($b.into())
        }
    }};
}

/// Pushes the value in a box.
#[macro_export]
macro_rules! push_val {
    ($v:expr, $b:expr) => {{
        #[cfg(not(miri))]
        {
            $v.push(*$b)
        }
        #[cfg(miri)]
        {
            $v.push_with($b.into())
        }
    }};
}
/// Inserts the value in a box.
#[macro_export]
macro_rules! insert_val {
    ($v:expr, $at:expr, $b:expr) => {{
        #[cfg(not(miri))]
        {
            $v.insert($at, *$b)
        }
        #[cfg(miri)]
        {
            $v.insert_with($at, $b.into())
        }
    }};
}

/// Where a new element goes.
pub trait Sinker<T: ?Sized> {
    fn val(self, x: T);
    /// A sized value, which can be passed by value everywhere.
    fn sized(self, x: T)
    where
        T: Sized,
        Self: Sized,
    {
        self.val(x)
    }
    fn emp<F: EmplacableFn<T>>(self, e: Emplacable<T, F>);
    fn unsize<S: Unsize<T>>(self, s: S);
}

/// The end, or a position, of a vec.
pub struct Sink<'a, T: ?Sized> {
    pub v: &'a mut UnsizedVec<T>,
    pub at: Option<usize>,
}
impl<T: ?Sized> Sinker<T> for Sink<'_, T> {
    #[inline(never)]
    fn val(self, x: T) {
        match self.at {
            None => self.v.push(x),
            Some(i) => self.v.insert(i, x),
        }
    }
    fn emp<F: EmplacableFn<T>>(self, e: Emplacable<T, F>) {
        match self.at {
            None => self.v.push_with(e),
            Some(i) => self.v.insert_with(i, e),
        }
    }
    fn unsize<S: Unsize<T>>(self, s: S) {
        match self.at {
            None => self.v.push_unsize(s),
            Some(i) => self.v.insert_unsize(i, s),
        }
    }
}

pub trait Kind: 'static {
    type T: ?Sized + 'static;
    const NAME: &'static str;
    const SIZED: bool;
    /// The alignment, when it is the same for all values of the type.
    const ALIGN: Option<usize>;
    /// Kinds whose alignment the implementation is documented to know (laid out without padding).
    const PACKED: bool;
    const SPECIALS: usize;
    fn mk(r: &mut Rng, p: &Prof) -> Box<Self::T>;
    fn obs(t: &Self::T) -> Desc;
    /// Replace the value in place.
    fn poke(t: &mut Self::T, r: &mut Rng);
    /// Adds a new element through the `route`-th source specific to this kind.
    fn special<S: Sinker<Self::T>>(route: usize, r: &mut Rng, p: &Prof, s: S) -> Desc;
    /// Does this route only borrow the value, and copy it when emplaced?
    fn borrows(_route: usize) -> bool {
        false
    }
    /// Number of live tracked values an element with this description stands for.
    fn tracked(d: &Desc) -> i64 {
        d.ids.len() as i64
    }
    /// A vec made by converting another collection, with its contents.
    fn preload(_r: &mut Rng, _p: &Prof) -> Option<(UnsizedVec<Self::T>, Vec<Desc>)> {
        None
    }
    /// Replaces the vec with a conversion of itself (no change of contents); false if not supported.
    fn convert(_v: &mut UnsizedVec<Self::T>, _r: &mut Rng) -> bool {
        false
    }
}

// ---------------------------------------------------------------- sized

pub struct Sz<T>(PhantomData<T>);
impl<T: Tok + Clone> Kind for Sz<T> {
    type T = T;
    const NAME: &'static str = "sized";
    const SIZED: bool = true;
    const ALIGN: Option<usize> = Some(align_of::<T>());
    const PACKED: bool = true;
    const SPECIALS: usize = 4;
    fn mk(_: &mut Rng, _: &Prof) -> Box<T> {
        elem(|| Box::new(T::fresh()))
    }
    fn obs(t: &T) -> Desc {
        d1(T::CLS, value(t))
    }
    fn poke(t: &mut T, _: &mut Rng) {
        *t = T::fresh();
    }
    fn special<S: Sinker<T>>(route: usize, _: &mut Rng, _: &Prof, s: S) -> Desc {
        let t = T::fresh();
        let d = Self::obs(&t);
        match route {
            0 => sut(|| s.sized(t)),
            1 => sut(|| s.emp(t.into())),
            2 => {
                let e: [Emplacable<T, _>; 1] = [t.into()];
                let e: Emplacable<[T; 1], _> = e.into();
                // an array of one, taken apart on the stack
                let [t] = sut(|| e.get());
                sut(|| s.sized(t));
            }
            _ => {
                let mut o = Some(t);
                // SAFETY: writes the value once, announces its exact layout
                let e = unsafe {
                    Emplacable::<T, _>::from_fn(move |em: &mut emplacable::Emplacer<'_, T>| {
                        let f = em.into_fn();
                        f(std::alloc::Layout::new::<T>(), (), &mut |p| {
                            let t = o.take().unwrap();
                            if !p.is_null() {
                                p.cast::<T>().write(t);
                            }
                        });
                        // not called back: the value is forgotten
                        std::mem::forget(o);
                    })
                };
                sut(|| s.emp(e));
            }
        }
        d
    }
    fn preload(r: &mut Rng, _: &Prof) -> Option<(UnsizedVec<T>, Vec<Desc>)> {
        let (n, extra) = (r.below(12), *r.pick(&[0usize, 0, 1, 5]));
        let mut w: Vec<T> = sut(|| Vec::with_capacity(n + extra));
        let mut m = own(|| Vec::with_capacity(n));
        for _ in 0..n {
            let t = T::fresh();
            let d = Self::obs(&t);
            own(|| m.push(d));
            sut(|| w.push(t));
        }
        Some((sut(|| w.into()), m))
    }
    fn convert(v: &mut UnsizedVec<T>, r: &mut Rng) -> bool {
        sut(|| {
            let old = std::mem::take(v);
            let mut w: Vec<T> = old.into();
            if r.chance(1, 3) {
                w.shrink_to_fit();
            } else if r.chance(1, 3) {
                w.reserve(3);
            }
            *v = w.into();
        });
        true
    }
}


/// A vec of sized elements, some taken out again, turned into a vec of unsized ones.
pub fn unsized_from<S: Unsize<T>, T: ?Sized>(r: &mut Rng, mk: impl Fn() -> S, obs: impl Fn(&S) -> Desc) -> (UnsizedVec<T>, Vec<Desc>) {
    let n = match r.below(6) {
        0 => 0,
        1 => 1,
        2 => r.range(0, 40),
        _ => r.range(2, 9),
    };
    let mut v: UnsizedVec<S> = sut(|| match r.below(4) {
        0 => UnsizedVec::new(),
        1 => UnsizedVec::with_capacity(n),
        2 => UnsizedVec::with_capacity(n + 7),
        _ => Vec::with_capacity(r.below(5)).into(),
    });
    let mut m = own(|| Vec::with_capacity(n));
    for _ in 0..n {
        let s = mk();
        let d = obs(&s);
        own(|| m.push(d));
        sut(|| v.push(s));
    }
    if n > 0 && r.chance(1, 3) {
        let k = r.below(n);
        sut(|| drop(v.remove_into(k)));
        own(|| m.remove(k));
    }
    if r.chance(1, 3) {
        sut(|| v.shrink_to_fit());
    }
    let (bytes, n) = (v.byte_len(), v.len());
    let u: UnsizedVec<T> = sut(|| v.unsize());
    ensure!(u.len() == n, Model, "unsizing a vec of {n} elements gives {}", u.len());
    ensure!(u.byte_len() == bytes, Layout, "unsizing a vec of {bytes} bytes gives {}", u.byte_len());
    ctx::count("unsizings", 1);
    (u, m)
}

// ---------------------------------------------------------------- slices

pub struct Sl<T>(PhantomData<T>);
fn mk_vec<T: Tok>(n: usize) -> Vec<T> {
    elem(|| (0..ctx::fit::<T>(n)).map(|_| T::fresh()).collect())
}
fn obs_slice<T: Tok>(t: &[T]) -> Desc {
    own(|| {
        // a wrong length could be astronomically large
        if t.len() > 400_000 {
            viol!("an element claims {} items", t.len());
            return Desc { cls: T::CLS, ids: vec![] };
        }
        Desc { cls: T::CLS, ids: t.iter().map(value).collect() }
    })
}
fn arr<T: Tok, const N: usize>() -> [T; N] {
    std::array::from_fn(|_| T::fresh())
}
#[macro_export]
macro_rules! by_n {
    ($n:expr, $N:ident => $e:expr) => {
        match $n {
            0 => { const $N: usize = 0; $e }
            1 => { const $N: usize = 1; $e }
            2 => { const $N: usize = 2; $e }
            3 => { const $N: usize = 3; $e }
            _ => { const $N: usize = 5; $e }
        }
    };
}

impl<T: Tok + Clone> Kind for Sl<T> {
    type T = [T];
    const NAME: &'static str = "slice";
    const SIZED: bool = false;
    const ALIGN: Option<usize> = Some(align_of::<T>());
    const PACKED: bool = true;
    const SPECIALS: usize = 8;
    fn mk(r: &mut Rng, p: &Prof) -> Box<[T]> {
        let n = p.len(r);
        elem(|| mk_vec(n).into_boxed_slice())
    }
    fn obs(t: &[T]) -> Desc {
        obs_slice(t)
    }
    fn poke(t: &mut [T], r: &mut Rng) {
        if !t.is_empty() {
            let i = r.below(t.len());
            t[i] = T::fresh();
            if r.chance(1, 4) {
                t.reverse();
            }
        }
    }
    fn borrows(route: usize) -> bool {
        route == 2
    }
    fn preload(r: &mut Rng, _: &Prof) -> Option<(UnsizedVec<[T]>, Vec<Desc>)> {
        Some(by_n!(r.below(5), N => unsized_from::<[T; N], [T]>(r, arr::<T, N>, |a| obs_slice(a))))
    }
    fn special<S: Sinker<[T]>>(route: usize, r: &mut Rng, p: &Prof, s: S) -> Desc {
        match route {
            0 => by_n!(r.below(5), N => {
                let a: [T; N] = arr();
                let d = obs_slice(&a);
                sut(|| s.unsize(a));
                d
            }),
            1 => {
                let n = p.len(r);
                let mut v: Vec<T> = mk_vec(n);
                let extra = *r.pick(&[0usize, 0, 1, 3, 17]);
                elem(|| v.reserve_exact(extra));
                let d = obs_slice(&v);
                sut(|| s.emp(v.into()));
                d
            }
            2 => {
                let n = p.len(r);
                let v: Vec<T> = mk_vec(n);
                let d = obs_slice(&v);
                sut(|| s.emp(v.as_slice().into()));
                if obs_slice(&v) != d {
                    viol!("the borrowed source of an emplacable changed");
                }
                d
            }
            3 => {
                let n = p.len(r);
                let v: Vec<T> = mk_vec(n);
                let d = obs_slice(&v);
                let it = elem(|| v.into_iter().map(Emplacable::from).collect::<Vec<_>>());
                sut(|| s.emp(Emplacable::from_iter(it)));
                d
            }
            4 => by_n!(r.below(5), N => {
                let a: [T; N] = arr();
                let d = obs_slice(&a);
                let e: [Emplacable<T, _>; N] = a.map(Emplacable::from);
                sut(|| s.emp(e.into()));
                d
            }),
            5 => by_n!(r.below(5), N => {
                let a: [T; N] = arr();
                let d = obs_slice(&a);
                let e: Emplacable<[T; N], _> = a.into();
                sut(|| s.emp(e.into()));
                d
            }),
            6 => by_n!(r.below(5), N => {
                let a: [T; N] = arr();
                let d = obs_slice(&a);
                #[cfg(not(miri))]
                sut(|| s.val(emplacable::unsize!(a, ([T; N]) -> [T])));
                #[cfg(miri)]
                sut(|| s.unsize(a));
                d
            }),
            _ => by_n!(r.below(5), N => {
                let a: [T; N] = arr();
                let d = obs_slice(&a);
                let e: Emplacable<[T; N], _> = a.into();
                sut(|| s.emp(e.unsize()));
                d
            }),
        }
    }
}

// ---------------------------------------------------------------- plain (Copy) slices

/// Untracked `Copy` items: the contents themselves are the description.
pub struct Pl<T>(PhantomData<T>);
pub trait Plain: Copy + 'static {
    const CLS: u16;
    fn from_u(x: u64) -> Self;
    fn to_u(self) -> u64;
}
impl Plain for u8 {
    const CLS: u16 = 40;
    fn from_u(x: u64) -> u8 {
        x as u8
    }
    fn to_u(self) -> u64 {
        u64::from(self)
    }
}
impl Plain for u32 {
    const CLS: u16 = 41;
    fn from_u(x: u64) -> u32 {
        x as u32
    }
    fn to_u(self) -> u64 {
        u64::from(self)
    }
}
impl Plain for (u64, u8) {
    const CLS: u16 = 42;
    fn from_u(x: u64) -> Self {
        (x, (x >> 7) as u8)
    }
    fn to_u(self) -> u64 {
        self.0 ^ (u64::from(self.1) << 56)
    }
}
fn obs_plain<T: Plain>(t: &[T]) -> Desc {
    own(|| {
        if t.len() > 400_000 {
            viol!("an element claims {} items", t.len());
            return Desc { cls: T::CLS, ids: vec![] };
        }
        let a = t.as_ptr().addr();
        if a % align_of::<T>() != 0 {
            viol!("misaligned reference: plain slice at {a:#x}");
            return Desc { cls: T::CLS, ids: vec![] };
        }
        Desc { cls: T::CLS, ids: t.iter().map(|x| x.to_u()).collect() }
    })
}
impl<T: Plain> Kind for Pl<T> {
    type T = [T];
    const NAME: &'static str = "plain-slice";
    const SIZED: bool = false;
    const ALIGN: Option<usize> = Some(align_of::<T>());
    const PACKED: bool = true;
    const SPECIALS: usize = 4;
    fn mk(r: &mut Rng, p: &Prof) -> Box<[T]> {
        let n = p.len(r);
        elem(|| (0..ctx::fit::<T>(n)).map(|_| T::from_u(r.next())).collect())
    }
    fn obs(t: &[T]) -> Desc {
        obs_plain(t)
    }
    fn poke(t: &mut [T], r: &mut Rng) {
        for x in t {
            *x = T::from_u(r.next());
        }
    }
    fn preload(r: &mut Rng, _: &Prof) -> Option<(UnsizedVec<[T]>, Vec<Desc>)> {
        let x = std::cell::Cell::new(r.next());
        let make = || {
            x.set(crate::rng::mix(x.get()));
            T::from_u(x.get())
        };
        Some(match r.below(3) {
            0 => unsized_from::<[T; 1], [T]>(r, || [make()], |a| obs_plain(a)),
            1 => unsized_from::<[T; 5], [T]>(r, || std::array::from_fn(|_| make()), |a| obs_plain(a)),
            _ => unsized_from::<[T; 0], [T]>(r, || [], |a| obs_plain(a)),
        })
    }
    fn special<S: Sinker<[T]>>(route: usize, r: &mut Rng, p: &Prof, s: S) -> Desc {
        let b = Self::mk(r, p);
        let d = obs_plain(&b);
        match route {
            0 => sut(|| s.emp((&*b).into())),
            1 => {
                let mut v = b.into_vec();
                elem(|| v.reserve(r.below(9)));
                sut(|| s.emp(v.into()));
            }
            2 => {
                let it = elem(|| b.iter().map(|x| Emplacable::from(*x)).collect::<Vec<_>>());
                sut(|| s.emp(Emplacable::from_iter(it)));
            }
            _ => {
                let a: [T; 3] = std::array::from_fn(|_| T::from_u(r.next()));
                let d = obs_plain(&a);
                sut(|| s.unsize(a));
                return d;
            }
        }
        d
    }
    fn tracked(_: &Desc) -> i64 {
        0
    }
}

// ---------------------------------------------------------------- text

pub struct Str;
fn text(r: &mut Rng, p: &Prof) -> String {
    let n = p.len(r);
    (0..n).map(|_| *r.pick(&['a', 'b', 'z', '0', ' ', 'é', '語', '🦀', '\n'])).collect()
}
fn obs_bytes(cls: u16, b: &[u8]) -> Desc {
    own(|| {
        if b.len() > 400_000 {
            viol!("an element claims {} bytes", b.len());
            return Desc { cls, ids: vec![] };
        }
        Desc { cls, ids: b.iter().map(|&x| u64::from(x)).collect() }
    })
}
impl Kind for Str {
    type T = str;
    const NAME: &'static str = "str";
    const SIZED: bool = false;
    const ALIGN: Option<usize> = Some(1);
    const PACKED: bool = true;
    const SPECIALS: usize = 3;
    fn mk(r: &mut Rng, p: &Prof) -> Box<str> {
        elem(|| text(r, p).into_boxed_str())
    }
    fn obs(t: &str) -> Desc {
        if std::str::from_utf8(t.as_bytes()).is_err() {
            viol!("a str element is not UTF-8");
        }
        obs_bytes(30, t.as_bytes())
    }
    fn poke(t: &mut str, _: &mut Rng) {
        if t.chars().any(|c| c.is_lowercase()) {
            t.make_ascii_uppercase();
        } else {
            t.make_ascii_lowercase();
        }
    }
    fn special<S: Sinker<str>>(route: usize, r: &mut Rng, p: &Prof, s: S) -> Desc {
        match route {
            0 => {
                let b = Self::mk(r, p);
                let d = Self::obs(&b);
                sut(|| s.emp((&*b).into()));
                d
            }
            1 => {
                const LIT: &str = "literally 語";
                #[cfg(not(miri))]
                sut(|| s.val(emplacable::by_value_str!("literally 語")));
                #[cfg(miri)]
                sut(|| s.emp(LIT.into()));
                Self::obs(LIT)
            }
            _ => {
                #[cfg(not(miri))]
                sut(|| s.val(emplacable::by_value_str!("")));
                #[cfg(miri)]
                sut(|| s.emp("".into()));
                Self::obs("")
            }
        }
    }
    fn tracked(_: &Desc) -> i64 {
        0
    }
}

pub struct Cs;
fn ctext(r: &mut Rng, p: &Prof) -> CString {
    let n = p.len(r);
    CString::new((0..n).map(|_| r.range(1, 255) as u8).collect::<Vec<u8>>()).unwrap()
}
impl Kind for Cs {
    type T = CStr;
    const NAME: &'static str = "cstr";
    const SIZED: bool = false;
    const ALIGN: Option<usize> = Some(1);
    const PACKED: bool = true;
    const SPECIALS: usize = 1;
    fn mk(r: &mut Rng, p: &Prof) -> Box<CStr> {
        elem(|| ctext(r, p).into_boxed_c_str())
    }
    fn obs(t: &CStr) -> Desc {
        let b = t.to_bytes_with_nul();
        if b.len() > 100_000 || b.is_empty() || b[b.len() - 1] != 0 || b[..b.len() - 1].contains(&0) {
            viol!("a CStr element is not a C string ({} bytes)", b.len());
        }
        obs_bytes(31, b)
    }
    fn poke(_: &mut CStr, _: &mut Rng) {}
    fn special<S: Sinker<CStr>>(_: usize, r: &mut Rng, p: &Prof, s: S) -> Desc {
        let b = Self::mk(r, p);
        let d = Self::obs(&b);
        sut(|| s.emp((&*b).into()));
        d
    }
    fn tracked(_: &Desc) -> i64 {
        0
    }
}

/// The bytes of a name as the system allows it, seldom text.
pub fn raw_name(r: &mut Rng, n: usize) -> Vec<u8> {
    (0..n).map(|_| if r.chance(1, 8) { r.below(256) as u8 } else { *r.pick(b"ab//..A\xff\x80\xc3\xed\xa0 \0") }).collect()
}
pub fn os_string(b: Vec<u8>) -> std::ffi::OsString {
    std::os::unix::ffi::OsStringExt::from_vec(b)
}

pub struct Pa;
impl Kind for Pa {
    type T = Path;
    const NAME: &'static str = "path";
    const SIZED: bool = false;
    const ALIGN: Option<usize> = Some(1);
    const PACKED: bool = false;
    const SPECIALS: usize = 1;
    fn mk(r: &mut Rng, p: &Prof) -> Box<Path> {
        elem(|| {
            let o = if r.chance(1, 2) { text(r, p).into() } else { let n = p.len(r); os_string(raw_name(r, n)) };
            std::path::PathBuf::from(o).into_boxed_path()
        })
    }
    fn obs(t: &Path) -> Desc {
        obs_bytes(32, t.as_os_str().as_encoded_bytes())
    }
    fn poke(t: &mut Path, _: &mut Rng) {
        t.as_mut_os_str().make_ascii_uppercase();
    }
    fn special<S: Sinker<Path>>(_: usize, r: &mut Rng, p: &Prof, s: S) -> Desc {
        let b = Self::mk(r, p);
        let d = Self::obs(&b);
        sut(|| s.emp((&*b).into()));
        d
    }
    fn tracked(_: &Desc) -> i64 {
        0
    }
}

// ---------------------------------------------------------------- trait objects

pub trait Obj {
    fn cls(&self) -> u16;
    fn value(&self) -> u64;
    fn renew(&mut self);
}
impl<T: Tok> Obj for T {
    fn cls(&self) -> u16 {
        T::CLS
    }
    fn value(&self) -> u64 {
        value(self)
    }
    fn renew(&mut self) {
        *self = T::fresh();
    }
}

#[macro_export]
macro_rules! with_cls {
    ($c:expr, $T:ident => $e:expr) => {
        match $c {
            1 => { type $T = $crate::toks::Z1; $e }
            2 => { type $T = $crate::toks::Z16; $e }
            3 => { type $T = $crate::toks::Z128; $e }
            4 => { type $T = $crate::toks::B1; $e }
            5 => { type $T = $crate::toks::B3; $e }
            6 => { type $T = $crate::toks::W2; $e }
            7 => { type $T = $crate::toks::W6; $e }
            8 => { type $T = $crate::toks::D4; $e }
            9 => { type $T = $crate::toks::D12; $e }
            10 => { type $T = $crate::toks::Q8; $e }
            11 => { type $T = $crate::toks::Q24; $e }
            12 => { type $T = $crate::toks::X16; $e }
            13 => { type $T = $crate::toks::X48; $e }
            14 => { type $T = $crate::toks::Y32; $e }
            15 => { type $T = $crate::toks::L64; $e }
            16 => { type $T = $crate::toks::P192; $e }
            17 => { type $T = $crate::toks::K256; $e }
            18 => { type $T = $crate::toks::G4096; $e }
            19 => { type $T = $crate::toks::B37; $e }
            _ => { type $T = $crate::toks::Hb; $e }
        }
    };
}

pub fn size_align_of_cls(c: u16) -> (usize, usize) {
    with_cls!(c, T => (size_of::<T>(), align_of::<T>()))
}

pub struct Dy;
impl Kind for Dy {
    type T = dyn Obj;
    const NAME: &'static str = "dyn";
    const SIZED: bool = false;
    const ALIGN: Option<usize> = None;
    const PACKED: bool = false;
    const SPECIALS: usize = 4;
    fn mk(r: &mut Rng, p: &Prof) -> Box<dyn Obj> {
        let c = *r.pick(&p.classes);
        with_cls!(c, T => elem(|| Box::new(T::fresh()) as Box<dyn Obj>))
    }
    fn obs(t: &Self::T) -> Desc {
        let c = t.cls();
        let (s, a) = size_align_of_cls(c);
        if size_of_val(t) != s || align_of_val(t) != a {
            viol!("a trait object of class {c} has the wrong vtable");
        }
        d1(c, t.value())
    }
    fn poke(t: &mut Self::T, _: &mut Rng) {
        t.renew();
    }
    fn preload(r: &mut Rng, p: &Prof) -> Option<(UnsizedVec<dyn Obj>, Vec<Desc>)> {
        let c = *r.pick(&p.classes);
        Some(with_cls!(c, T => unsized_from::<T, dyn Obj>(r, T::fresh, |t| d1(c, value(t)))))
    }
    fn special<S: Sinker<dyn Obj>>(route: usize, r: &mut Rng, p: &Prof, s: S) -> Desc {
        let c = *r.pick(&p.classes);
        with_cls!(c, T => {
            let t = T::fresh();
            let d = d1(c, value(&t));
            match route {
                0 | 1 => sut(|| s.unsize(t)),
                2 => {
                    let e: Emplacable<T, _> = t.into();
                    sut(|| s.emp(e.unsize()));
                }
                #[cfg(not(miri))]
                _ => sut(|| s.val(emplacable::unsize!(t, (T) -> dyn Obj))),
                #[cfg(miri)]
                _ => sut(|| s.unsize(t)),
            }
            d
        })
    }
}

// ---------------------------------------------------------------- unsized tails

#[repr(C)]
pub struct Tail<H, T: ?Sized> {
    pub h: H,
    pub t: T,
}

/// A struct whose last field is a slice: alignment not known to the vec, length not derivable from the size.
pub struct Ts<H, T>(PhantomData<(H, T)>);
impl<H: Tok, T: Tok> Kind for Ts<H, T> {
    type T = Tail<H, [T]>;
    const NAME: &'static str = "tail-slice";
    const SIZED: bool = false;
    const ALIGN: Option<usize> = Some(if align_of::<H>() > align_of::<T>() { align_of::<H>() } else { align_of::<T>() });
    const PACKED: bool = false;
    const SPECIALS: usize = 2;
    fn mk(r: &mut Rng, _: &Prof) -> Box<Tail<H, [T]>> {
        by_n!(r.below(5), N => elem(|| Box::new(Tail { h: H::fresh(), t: arr::<T, N>() }) as Box<Tail<H, [T]>>))
    }
    fn obs(t: &Tail<H, [T]>) -> Desc {
        let h = value(&t.h);
        let mut d = obs_slice(&t.t);
        own(|| d.ids.push(h));
        d
    }
    fn poke(t: &mut Tail<H, [T]>, _: &mut Rng) {
        t.h = H::fresh();
        for x in &mut t.t {
            *x = T::fresh();
        }
    }
    fn preload(r: &mut Rng, _: &Prof) -> Option<(UnsizedVec<Tail<H, [T]>>, Vec<Desc>)> {
        Some(by_n!(r.below(5), N => unsized_from::<Tail<H, [T; N]>, Tail<H, [T]>>(
            r, || Tail { h: H::fresh(), t: arr::<T, N>() }, |x| Self::obs(x))))
    }
    fn special<S: Sinker<Tail<H, [T]>>>(route: usize, r: &mut Rng, _: &Prof, s: S) -> Desc {
        by_n!(r.below(5), N => {
            let x = Tail { h: H::fresh(), t: arr::<T, N>() };
            let d = Self::obs(&x);
            if route == 0 {
                sut(|| s.unsize(x));
            } else {
                let e: Emplacable<Tail<H, [T; N]>, _> = x.into();
                sut(|| s.emp(e.unsize()));
            }
            d
        })
    }
}

/// A struct whose last field is a trait object.
pub struct Td;
impl Kind for Td {
    type T = Tail<B3, dyn Obj>;
    const NAME: &'static str = "tail-dyn";
    const SIZED: bool = false;
    const ALIGN: Option<usize> = None;
    const PACKED: bool = false;
    const SPECIALS: usize = 2;
    fn mk(r: &mut Rng, p: &Prof) -> Box<Self::T> {
        let c = *r.pick(&p.classes);
        with_cls!(c, T => elem(|| Box::new(Tail { h: B3::fresh(), t: T::fresh() }) as Box<Self::T>))
    }
    fn obs(t: &Self::T) -> Desc {
        let h = value(&t.h);
        let c = t.t.cls();
        let (s, a) = with_cls!(c, T => (size_of::<Tail<B3, T>>(), align_of::<Tail<B3, T>>()));
        if size_of_val(t) != s || align_of_val(t) != a {
            viol!("a tail object of class {c} has the wrong vtable");
        }
        let v = t.t.value();
        own(|| Desc { cls: c, ids: vec![v, h] })
    }
    fn poke(t: &mut Self::T, _: &mut Rng) {
        t.h = B3::fresh();
        t.t.renew();
    }
    fn preload(r: &mut Rng, p: &Prof) -> Option<(UnsizedVec<Self::T>, Vec<Desc>)> {
        let c = *r.pick(&p.classes);
        Some(with_cls!(c, T => unsized_from::<Tail<B3, T>, Tail<B3, dyn Obj>>(
            r, || Tail { h: B3::fresh(), t: T::fresh() }, |x| Self::obs(x))))
    }
    fn special<S: Sinker<Self::T>>(route: usize, r: &mut Rng, p: &Prof, s: S) -> Desc {
        let c = *r.pick(&p.classes);
        with_cls!(c, T => {
            let x = Tail { h: B3::fresh(), t: T::fresh() };
            let d = Self::obs(&x);
            if route == 0 {
                sut(|| s.unsize(x));
            } else {
                let e: Emplacable<Tail<B3, T>, _> = x.into();
                sut(|| s.emp(e.unsize()));
            }
            d
        })
    }
}

pub const KINDS: usize = 23;
pub const KIND_NAMES: [&str; KINDS] = [
    "dyn Obj", "[Q8]", "Tail<B3,dyn Obj>", "[B3]", "Q24", "Tail<W2,[B1]>", "str", "[Z1]", "[X16]", "CStr", "Z1", "[u32]",
    "Path", "[Hb]", "Hb", "B1", "Tail<X16,[D4]>", "[u8]", "Y32", "[Z16]", "[(u64,u8)]", "[L64]", "Z128",
];
#[allow(unused)]
fn _unused(x: &dyn Fn()) {
    let _ = reg::has_viol;
    x();
}
