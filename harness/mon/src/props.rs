//! Which cases are run for which property, and which monitors decide it.
use crate::ctx::*;
use crate::engine::*;
use crate::kinds::*;
use crate::reg;
use crate::rng::Rng;

pub fn number(p: &str) -> u64 {
    p.bytes().fold(0u64, |h, b| h * 131 + u64::from(b))
}

fn history<K: Kind>(r: Rng, plan: Plan, k: u64) {
    let mut h: Box<Hist<K>> = crate::heap::own(|| Box::new(Hist::<K>::new(r, plan, k)));
    if h.plan.preload > 0 && h.r.chance(1, h.plan.preload) {
        h.preload();
    }
    if !failed() {
        h.run();
    }
    crate::heap::own(|| if failed() { std::mem::forget(h) } else { drop(h) });
}

/// Kinds whose alignment is only known at run time.
const MIXED: [u64; 6] = [0, 2, 5, 16, 0, 2];
const UNSIZED: [u64; 17] = [0, 1, 2, 3, 5, 6, 7, 8, 9, 11, 12, 13, 16, 17, 19, 20, 21];

fn w(pairs: &[(usize, u32)]) -> W {
    let mut w = BASE_W;
    for (k, x) in pairs {
        w[*k] = *x;
    }
    w
}

/// The history workload of a property.
fn plan(prop: &str, _i: u64, r: &mut Rng) -> Plan {
    let mut p = Plan::default();
    // a few long lists and long histories
    match r.below(40) {
        0 => {
            p.cap_len = 60;
            p.ops = 120;
        }
        1 => p.ops = 150,
        2 | 3 => p.cap_len = 4,
        _ => {}
    }
    if cfg!(miri) {
        p.cap_len = 5;
        p.ops = 14;
    }
    // and a few large ones
    if !cfg!(miri) && r.chance(1, 400) {
        (p.bulk, p.long) = match r.below(12) {
            0..=6 => (r.range(80, 700), 0),
            7 => (r.range(700, 2500), 0),
            8..=9 => (r.range(10, 60), r.range(100, 1500)),
            10 => (r.range(2, 8), r.range(5_000, 70_000)),
            _ if cfg!(debug_assertions) && r.chance(1, 3) => (70_000, 2),
            _ => (r.range(250, 270), 0),
        };
        p.cap_len = p.bulk + 10;
        p.ops = if p.bulk > 20_000 { 3 } else { 20 };
        p.preload = 0;
    }
    match prop {
        "V01" => {}
        "V02" => p.w = w(&[(RENEW, 3), (DROP_SOME, 4), (CONVERT, 3), (TRANSFER, 5), (POP, 8), (REMOVE, 10), (WRITE, 6), (RESERVE, 1), (SHRINK, 1)]),
        "V03" => {
            p.w = w(&[(INS, 7), (INS_WITH, 6), (INS_SP, 6), (REMOVE, 10), (SHRINK, 6), (RES_ALIGN, 2)]);
            p.oom = if r.chance(1, 4) { 8 } else { 0 };
        }
        "V04" => p.w = w(&[(RES_ALIGN, 4), (SHRINK, 6), (REMOVE, 9), (CONVERT, 2)]),
        "V05" => p.w = w(&[(RESERVE, 10), (TRY_RESERVE, 4), (FILL, 8), (RES_ALIGN, 3), (SHRINK, 3), (RENEW, 3), (REMOVE, 10), (POP, 8)]),
        "V06" => {
            p.w = w(&[(SHRINK, 22), (RESERVE, 5), (RES_ALIGN, 4), (REMOVE, 9), (FILL, 2)]);
            p.oom = if r.chance(1, 3) { 5 } else { 0 };
        }
        "V07" => {
            p.w = w(&[(TRY_RESERVE, 14), (RESERVE, 6), (RES_ALIGN, 4), (SHRINK, 3)]);
            p.huge = 2;
            p.oom = 3;
        }
        "V08" => {
            p.w = w(&[(EXTEND, 4), (CONVERT, 2), (RENEW, 2), (TRANSFER, 3)]);
            if r.chance(1, 4) {
                p.oom = 3;
            } else {
                p.fuse = 3;
                p.fuse_mask = if r.chance(1, 2) { u32::MAX } else { *r.pick(&[reg::EV_DROP, reg::EV_CLONE, reg::EV_CLOSURE_BEFORE, reg::EV_CLOSURE_INSIDE, reg::EV_CLOSURE_AFTER, reg::EV_EMPLACER, reg::EV_ITER]) };
            }
        }
        "V09" => p.w = w(&[(ITER, 30), (SHRINK, 2), (RESERVE, 1), (TRY_RESERVE, 0)]),
        "V13" => {
            p.w = w(&[(EXTEND, 24)]);
            if r.chance(1, 2) {
                p.fuse = 2;
                p.fuse_mask = reg::EV_ITER | reg::EV_CLOSURE_BEFORE | reg::EV_CLOSURE_INSIDE;
            }
        }
        "V11" => {
            p.preload = usize::from(p.bulk == 0);
            p.w = w(&[(CONVERT, 5)]);
        }
        "V14" => p.w = w(&[(OOR, 30)]),
        "V15" => p.w = w(&[(RENEW, 4), (RES_ALIGN, 2)]),
        _ => {}
    }
    p
}

/// Is an alarm of this monitor a violation of this property?
pub fn accepts(p: &str, t: Tag) -> bool {
    use Tag::*;
    match p {
        "V01" => !matches!(t, Cap | Cost | Layout),
        "V02" => matches!(t, Own | Bytes | Heap | Model | Panic | Value),
        "V03" => matches!(t, Own | Bytes | Heap | Align | Layout),
        "V04" => !matches!(t, Cost),
        "V12" => matches!(t, Tag::Cost),
        "V14" => matches!(t, Model | Own | Bytes | Panic | Heap | Value | Cap),
        "V15" => matches!(t, Layout | Align | Bytes | Heap | Cap),
        _ => true,
    }
}

pub fn kind_of(prop: &str, i: u64, r: &mut Rng) -> u64 {
    let all = i % KINDS as u64;
    match prop {
        "V04" if r.chance(7, 10) => *r.pick(&MIXED),
        "V15" if r.chance(1, 2) => *r.pick(&UNSIZED),
        _ => all,
    }
}

/// One case of a property for one kind of element.
pub fn kind_case<K: Kind>(prop: &str, i: u64, k: u64, mut r: Rng) {
    if prop == "V12" {
        return crate::cost::cost::<K>(&mut r, k);
    }
    let p = plan(prop, i, &mut r);
    history::<K>(r, p, k);
}

/// One case of a property of emplacables for one kind of element.
pub fn emp_case<K: Kind>(prop: &str, _i: u64, k: u64, mut r: Rng) {
    crate::dest::emplacing::<K>(prop, &mut r, k);
}

/// Which concrete scenario to run instead of a generic one, if any.
pub fn concrete(prop: &str, r: &mut Rng, n: usize) -> Option<usize> {
    let share = match prop {
        "E04" => 10,
        "E06" => 6,
        _ => 4,
    };
    r.chance(share, 10).then(|| r.below(n))
}
