//! Instantiates the generic workloads for some kinds of element (one crate per group, to build in parallel).
#![allow(unused_imports)]
use mon::{kinds::*, props, rng::Rng, toks::*};

pub fn run(prop: &str, i: u64, k: u64, r: Rng) {
    match k {
        6 => props::kind_case::<Str>(prop, i, k, r),
        14 => props::kind_case::<Sz<Hb>>(prop, i, k, r),
        22 => props::kind_case::<Sz<Z128>>(prop, i, k, r),
        _ => unreachable!(),
    }
}
