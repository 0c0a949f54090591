//! Instantiates the generic workloads for some kinds of element (one crate per group, to build in parallel).
#![allow(unused_imports)]
use mon::{kinds::*, props, rng::Rng, toks::*};

pub fn run(prop: &str, i: u64, k: u64, r: Rng) {
    match k {
        7 => props::kind_case::<Sl<Z1>>(prop, i, k, r),
        15 => props::kind_case::<Sz<B1>>(prop, i, k, r),
        _ => unreachable!(),
    }
}
