//! Instantiates the generic workloads for some kinds of element (one crate per group, to build in parallel).
#![allow(unused_imports)]
use mon::{kinds::*, props, rng::Rng, toks::*};

pub fn run(prop: &str, i: u64, k: u64, r: Rng) {
    match k {
        4 => props::kind_case::<Sz<Q24>>(prop, i, k, r),
        12 => props::kind_case::<Pa>(prop, i, k, r),
        20 => props::kind_case::<Pl<(u64, u8)>>(prop, i, k, r),
        _ => unreachable!(),
    }
}
