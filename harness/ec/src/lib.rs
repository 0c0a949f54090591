//! Scenarios for emplacables of concrete types.
#![feature(allocator_api, unsized_fn_params, unsize, ptr_metadata)]
#![allow(internal_features, clippy::all, unexpected_cfgs, dead_code, unused_imports, unused_macros)]

include!("../../ec/src/common.rs");

pub const SCENARIOS: [Scenario; 4] = [
    ("text", text),
    ("c strings, os strings, paths", names),
    ("by value, without heap", by_value),
    ("nested by-value calls", nested),
];

// ---------------------------------------------------------------- text

fn string(r: &mut Rng) -> String {
    let n = *r.pick(&[0usize, 0, 1, 2, 5, 17, 64, 300]);
    let n = if r.chance(1, 2) { r.below(40) } else { n };
    let n = many(r, n);
    let n = if n > 400 && r.chance(1, 3) { r.range(20_000, 70_000) } else { n };
    elem(|| (0..n).map(|_| *r.pick(&['a', 'b', 'z', '0', ' ', 'é', '語', '🦀', '\n', '\0'])).collect())
}

fn text_into<F: EmplacableFn<str>>(e: Emplacable<str, F>, route: usize, want: &str) -> bool {
    let c0 = heap::counts();
    let n = want.len();
    let same = |got: &str, what: &str| {
        count("deliveries", 1);
        ensure!(got == want, Value, "{what}: got {got:?}, it was {want:?}");
    };
    match route {
        0 | 1 => {
            let s: String = sut(|| if route == 0 { e.into_string() } else { String::from(e) });
            same(&s, "String");
            ensure!(s.capacity() == n, Announce, "a String of {n} bytes has capacity {}", s.capacity());
            exact(s.as_ptr().addr(), n, 1, "String");
            one_block(c0, n, "String");
            sut(|| drop(s));
        }
        2 => {
            let b: Box<str> = sut(|| box_new_with(e));
            same(&b, "Box<str>");
            exact(b.as_ptr().addr(), n, 1, "Box<str>");
            one_block(c0, n, "Box<str>");
            sut(|| drop(b));
        }
        3 => {
            let b: Rc<str> = sut(|| e.into());
            same(&b, "Rc<str>");
            sut(|| drop(b));
        }
        4 => {
            let b: Arc<str> = sut(|| e.into());
            same(&b, "Arc<str>");
            sut(|| drop(b));
        }
        5 => {
            let e: Emplacable<[u8], _> = e.into();
            let v: Vec<u8> = sut(|| e.into_vec());
            ensure!(v == want.as_bytes(), Value, "Vec<u8>: got {v:?}, it was {want:?}");
            ensure!(v.capacity() == n, Announce, "a Vec of {n} bytes has capacity {}", v.capacity());
            one_block(c0, n, "Vec<u8>");
            sut(|| drop(v));
        }
        6 => {
            let mut v: UnsizedVec<str> = UnsizedVec::new();
            sut(|| v.push_with(e));
            same(&v[0], "UnsizedVec<str>");
            sut(|| drop(v));
        }
        7 => {
            let e: Emplacable<[u8], _> = e.into();
            let mut v: UnsizedVec<[u8]> = UnsizedVec::new();
            sut(|| v.push_with(e));
            ensure!(v[0] == *want.as_bytes(), Value, "UnsizedVec<[u8]>: got {:?}, it was {want:?}", &v[0]);
            sut(|| drop(v));
        }
        8 => {
            let e: Emplacable<[u8], _> = e.into();
            let b = sut(|| strict_box(e));
            match b {
                Some(b) => ensure!(*b == *want.as_bytes(), Value, "strict: got {b:?}, it was {want:?}"),
                None => fail!(Value, "nothing was emplaced"),
            }
        }
        9 => {
            let b = sut(|| strict_box(e));
            match b {
                Some(b) => same(&b, "strict"),
                None => fail!(Value, "nothing was emplaced"),
            }
        }
        10 => {
            let l = sut(|| strict_null(e));
            ensure!(l.map(|l| (l.size(), l.align())) == Some((n, 1)), Announce, "a str of {n} bytes was announced as {l:?}");
            no_block(c0, "dropping");
        }
        11 => {
            let e: Emplacable<[u8], _> = e.into();
            sut(|| drop(e));
            no_block(c0, "dropping");
        }
        12 => {
            let e: Emplacable<[u8], _> = e.into();
            sut(|| e.forget());
            no_block(c0, "forgetting");
        }
        13 => {
            sut(|| drop(e));
            no_block(c0, "dropping");
        }
        _ => {
            sut(|| e.forget());
            no_block(c0, "forgetting");
        }
    }
    true
}

fn text(_: &str, r: &mut Rng) {
    let since = heap::seq();
    let s = string(r);
    let (src, route) = (r.below(4), r.below(15));
    logf!("str of {} bytes, source {src}, destination {route}", s.len());
    print(hash_all(&[1001, src as u64, route as u64, size_class(s.len())]));
    let before = own(|| s.clone());
    calm("text", || match src {
        0 => {
            let e: Emplacable<str, _> = (&*s).into();
            text_into(e, route, &before);
        }
        1 => {
            let b: Box<str> = elem(|| s.as_str().into());
            let e: Emplacable<str, _> = b.into();
            text_into(e, route, &before);
        }
        2 => {
            let b: Box<str> = elem(|| s.as_str().into());
            text_into(from_box(b), route, &before);
        }
        _ => {
            let b: Box<str> = elem(|| s.as_str().into());
            passed!(str, (), b, |e| {
                text_into(e, route, &before);
            });
        }
    });
    ensure!(s == before, Value, "the borrowed source of an emplacable changed");
    own(|| drop(before));
    elem(|| drop(s));
    poll();
    end(since, false);
}

fn name_into<T: ?Sized + 'static + AsBytes, F: EmplacableFn<T>, O>(
    e: Emplacable<T, F>,
    route: usize,
    want: &[u8],
    own_it: impl FnOnce(Emplacable<T, F>) -> O,
    bytes: impl Fn(&O) -> (&[u8], Option<usize>),
) {
    let c0 = heap::counts();
    let same = |got: &[u8], what: &str| {
        count("deliveries", 1);
        ensure!(got == want, Value, "{what}: got {got:?}, it was {want:?}");
    };
    match route {
        0 | 1 => {
            let o = sut(|| own_it(e));
            let (b, cap) = bytes(&o);
            same(b, "owned string");
            exact(b.as_ptr().addr(), b.len(), 1, "owned string");
            ensure!(cap.is_none_or(|c| c == want.len()), Announce, "an owned string of {} bytes has capacity {cap:?}", want.len());
            one_block(c0, want.len(), "owned string");
            sut(|| drop(o));
        }
        2 => {
            let b = sut(|| box_new_with(e));
            same(b.as_b(), "box");
            exact(b.as_b().as_ptr().addr(), want.len(), 1, "box");
            one_block(c0, want.len(), "box");
            sut(|| drop(b));
        }
        3 => {
            let b: Rc<T> = sut(|| e.into());
            same(b.as_b(), "Rc");
            sut(|| drop(b));
        }
        4 => {
            let b: Pin<Arc<T>> = sut(|| arc_pin_with(e));
            same(b.as_b(), "pinned Arc");
            sut(|| drop(b));
        }
        5 => {
            let mut v: UnsizedVec<T> = UnsizedVec::new();
            sut(|| v.push_with(e));
            same(v[0].as_b(), "UnsizedVec");
            sut(|| drop(v));
        }
        6 => match sut(|| strict_box(e)) {
            Some(b) => same(b.as_b(), "strict"),
            None => fail!(Value, "nothing was emplaced"),
        },
        7 => {
            let l = sut(|| strict_null(e));
            ensure!(l.map(|l| (l.size(), l.align())) == Some((want.len(), 1)), Announce, "{} bytes were announced as {l:?}", want.len());
            no_block(c0, "dropping");
        }
        8 => {
            sut(|| drop(e));
            no_block(c0, "dropping");
        }
        _ => {
            sut(|| e.forget());
            no_block(c0, "forgetting");
        }
    }
}
trait AsBytes {
    fn as_b(&self) -> &[u8];
}
impl AsBytes for CStr {
    fn as_b(&self) -> &[u8] {
        // the length as the reference has it, not as a search for the end would
        self.to_bytes_with_nul()
    }
}
impl AsBytes for OsStr {
    fn as_b(&self) -> &[u8] {
        self.as_encoded_bytes()
    }
}
impl AsBytes for Path {
    fn as_b(&self) -> &[u8] {
        self.as_os_str().as_encoded_bytes()
    }
}
fn names(_: &str, r: &mut Rng) {
    let since = heap::seq();
    let s: Vec<u8> = if r.chance(1, 2) {
        let n = r.below(60);
        let n = many(r, n);
        elem(|| mon::kinds::raw_name(r, n))
    } else {
        string(r).into_bytes()
    };
    let (which, boxed, route) = (r.below(3), r.below(3), r.below(10));
    logf!("name kind {which} of {} bytes, source {boxed}, destination {route}", s.len());
    print(hash_all(&[1002, which as u64, boxed as u64, route as u64, size_class(s.len())]));
    calm("names", || {
        macro_rules! go {
            ($T:ty, $own:expr, $want:expr, $into:expr, $bytes:expr) => {{
                let o = elem(|| $own);
                let want: Vec<u8> = own(|| $want(&o));
                match boxed {
                    0 => {
                        let e: Emplacable<$T, _> = <&$T>::into(&*o);
                        name_into(e, route, &want, $into, $bytes);
                        ensure!($want(&o) == want, Value, "the borrowed source of an emplacable changed");
                        elem(|| drop(o));
                    }
                    1 => {
                        let b: Box<$T> = elem(|| Box::from(&*o));
                        elem(|| drop(o));
                        let e: Emplacable<$T, _> = b.into();
                        name_into(e, route, &want, $into, $bytes);
                    }
                    _ => {
                        let b: Box<$T> = elem(|| Box::from(&*o));
                        elem(|| drop(o));
                        passed!($T, (), b, |e| name_into(e, route, &want, $into, $bytes));
                    }
                }
                own(|| drop(want));
            }};
        }
        match which {
            0 => go!(CStr, CString::new(s.iter().copied().filter(|&b| b != 0).collect::<Vec<u8>>()).unwrap(), |o: &CString| o.as_bytes_with_nul().to_vec(),
                |e| CString::from(e), |o: &CString| (o.as_bytes_with_nul(), None)),
            1 => go!(OsStr, mon::kinds::os_string(s.clone()), |o: &OsString| o.as_encoded_bytes().to_vec(),
                |e| OsString::from(e), |o: &OsString| (o.as_encoded_bytes(), Some(o.capacity()))),
            _ => go!(Path, PathBuf::from(mon::kinds::os_string(s.clone())), |o: &PathBuf| o.as_os_str().as_encoded_bytes().to_vec(),
                |e| PathBuf::from(e), |o: &PathBuf| (o.as_os_str().as_encoded_bytes(), Some(o.capacity()))),
        }
    });
    drop(s);
    poll();
    end(since, false);
}

// ---------------------------------------------------------------- by value

#[cfg(not(miri))]
#[inline(never)]
fn eat_slice<T: Tok>(x: [T]) -> Vec<u64> {
    vals(&x, "stack")
}
#[cfg(not(miri))]
#[inline(never)]
fn eat_dyn(x: dyn Obj) -> (u16, u64) {
    (x.cls(), x.value())
}
#[cfg(not(miri))]
#[inline(never)]
fn eat_str(x: str) -> String {
    own(|| x.to_string())
}
#[cfg(not(miri))]
#[inline(never)]
fn box_str(x: str, way: usize) -> (String, usize, usize) {
    macro_rules! out { ($b:expr) => {{ let b = $b; let o = (own(|| b.to_string()), b.as_ptr().addr(), b.len()); drop(b); o }}; }
    match way {
        0 => out!(box_new(x)),
        1 => out!(box_pin(x)),
        2 => out!(rc_new(x)),
        3 => out!(rc_pin(x)),
        4 => out!(arc_new(x)),
        5 => out!(arc_pin(x)),
        _ => out!(with_emplacable_for::<str, _, String>(x, |e| e.into_string())),
    }
}

#[cfg(not(miri))]
const LONG: &str = concat!("a long literal, 語🦀, ", "0123456789012345678901234567890123456789012345678901234567890123456789", "0123456789012345678901234567890123456789012345678901234567890123456789\n\0end");

#[cfg(miri)]
fn by_value(_: &str, _: &mut Rng) {}
#[cfg(not(miri))]
fn by_value(_: &str, r: &mut Rng) {
    let since = heap::seq();
    let way = r.below(4);
    print(hash_all(&[1007, way as u64]));
    calm("by value", || match way {
        0 => {
            let nn = r.below(5);
            with_tok!(r, T => by_n!(nn, N => {
                logf!("unsize! an array of {N} items of size {}", size_of::<T>());
                let (a, want) = tokens::<T, N>();
                let c0 = heap::counts();
                let mut evals = 0;
                let got = sut(|| eat_slice::<T>(unsize!({ evals += 1; a }, ([T; N]) -> [T])));
                no_block(c0, "unsize!");
                ensure!(evals == 1, Value, "unsize! evaluated its operand {evals} times");
                ensure!(got == want, Value, "unsize!: got {got:?}, it was {want:?}");
                own(|| { drop(got); drop(want); });
                print(hash_all(&[1007, 1, N as u64, size_of::<T>() as u64]));
            }));
        }
        1 => {
            let c = *r.pick(&mon::kinds::ALL_CLASSES);
            with_cls!(c, T => {
                logf!("unsize! a value of size {} to a trait object", size_of::<T>());
                let t = T::fresh();
                let want = value(&t);
                let c0 = heap::counts();
                let got = sut(|| eat_dyn(unsize!(t, (T) -> dyn Obj)));
                no_block(c0, "unsize!");
                ensure!(got == (c, want), Value, "unsize!: got {got:?}, it was {:?}", (c, want));
                print(hash_all(&[1007, 2, c.into()]));
            });
        }
        2 => {
            let k = r.below(4);
            logf!("by_value_str! {k}");
            let c0 = heap::counts();
            let (got, want) = match k {
                0 => (sut(|| eat_str(by_value_str!(""))), ""),
                1 => (sut(|| eat_str(by_value_str!("x"))), "x"),
                2 => (sut(|| eat_str(by_value_str!("語 and 🦀 \0 too"))), "語 and 🦀 \0 too"),
                _ => (sut(|| eat_str(by_value_str!("a long literal, 語🦀, 01234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789\n\0end"))), LONG),
            };
            no_block(c0, "by_value_str!");
            ensure!(got == want, Value, "by_value_str!: got {got:?}, it was {want:?}");
            own(|| drop(got));
            print(hash_all(&[1007, 3, k as u64]));
        }
        _ => {
            let (k, w) = (r.below(3), r.below(7));
            logf!("by_value_str! {k} into {w}");
            let c0 = heap::counts();
            let ((got, at, n), want) = match k {
                0 => (sut(|| box_str(by_value_str!(""), w)), ""),
                1 => (sut(|| box_str(by_value_str!("語 and 🦀"), w)), "語 and 🦀"),
                _ => (sut(|| box_str(by_value_str!("plain"), w)), "plain"),
            };
            let _ = (at, n);
            ensure!(got == want, Value, "by_value_str!: got {got:?}, it was {want:?}");
            if w < 2 || w == 6 {
                one_block(c0, want.len(), "boxing a str");
            }
            own(|| drop(got));
            print(hash_all(&[1007, 4, k as u64, w as u64]));
        }
    });
    count("deliveries", 1);
    poll();
    end(since, false);
}

// ---------------------------------------------------------------- nesting

#[cfg(not(miri))]
#[inline(never)]
fn relay(x: dyn Obj, depth: usize, route: usize, out: &mut Option<Box<dyn Obj>>) {
    if depth > 0 {
        return match route % 3 {
            0 => relay(x, depth - 1, route / 3, out),
            1 => {
                // once round through a box
                let b: Box<dyn Obj> = box_new(x);
                relay(*b, depth - 1, route / 3, out)
            }
            _ => with_emplacable_for::<dyn Obj, _, ()>(x, |e| {
                let b = box_new_with(e);
                relay(*b, depth - 1, route / 3, out)
            }),
        };
    }
    reg::event(reg::EV_BODY);
    *out = Some(box_new(x));
}
#[cfg(miri)]
fn nested(_: &str, _: &mut Rng) {}
#[cfg(not(miri))]
fn nested(prop: &str, r: &mut Rng) {
    let since = heap::seq();
    let armed = prop == "E05" && r.chance(1, 3);
    let (c, depth, route) = (*r.pick(&mon::kinds::ALL_CLASSES), r.below(4), r.below(27));
    let first = r.chance(1, 2);
    print(hash_all(&[1010, c.into(), depth as u64, route as u64]));
    with_cls!(c, T => {
        logf!("a value of size {} align {} passed by value {depth} times, route {route}", size_of::<T>(), align_of::<T>());
        let t = T::fresh();
        let want: Desc = own(|| Desc::new(c, vec![value(&t)]));
        let mut out: Option<Box<dyn Obj>> = None;
        if armed {
            reg::fuse_set(1, reg::EV_BODY);
        }
        let x = catch(|| {
            if first {
                sut(|| relay(unsize!(t, (T) -> dyn Obj), depth, route, &mut out));
            } else {
                let b: Box<dyn Obj> = elem(|| Box::new(t));
                sut(|| relay(*b, depth, route, &mut out));
            }
        });
        let ok = x.is_ok();
        settle(x, armed, "nested by-value calls");
        if !failed() {
            match &out {
                Some(b) => {
                    ensure!(ok, Value, "a panic left a value behind");
                    ensure!(b.cls() == want.cls && b.value() == want.ids[0], Value, "by value: got {} {}, it was {want:?}", b.cls(), b.value());
                    exact((&raw const **b).cast::<u8>().addr(), size_of::<T>(), align_of::<T>(), "box_new");
                    count("deliveries", 1);
                }
                None => ensure!(!ok, Value, "nothing was delivered"),
            }
            sut(|| drop(out));
        } else {
            std::mem::forget(out);
        }
        own(|| drop(want));
        poll();
        if !failed() {
            // a value passed by value is dropped by whoever has it when a panic passes
            ensure!(reg::live_total() == 0, Own, "{} values are still alive", reg::live_total());
        }
        end(since, !ok);
    });
}

