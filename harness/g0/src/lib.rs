//! Instantiates the generic workloads for some kinds of element (one crate per group, to build in parallel).
#![allow(unused_imports)]
use mon::{kinds::*, props, rng::Rng, toks::*};

pub fn run(prop: &str, i: u64, k: u64, r: Rng) {
    match k {
        0 => props::kind_case::<Dy>(prop, i, k, r),
        8 => props::kind_case::<Sl<X16>>(prop, i, k, r),
        16 => props::kind_case::<Ts<X16, D4>>(prop, i, k, r),
        _ => unreachable!(),
    }
}
