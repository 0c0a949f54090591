//! Instantiates the generic workloads for some kinds of element (one crate per group, to build in parallel).
#![allow(unused_imports)]
use mon::{kinds::*, props, rng::Rng, toks::*};

pub fn run(prop: &str, i: u64, k: u64, r: Rng) {
    match k {
        3 => props::kind_case::<Sl<B3>>(prop, i, k, r),
        11 => props::kind_case::<Pl<u32>>(prop, i, k, r),
        19 => props::kind_case::<Sl<Z16>>(prop, i, k, r),
        _ => unreachable!(),
    }
}
