//! Instantiates the generic workloads for some kinds of element (one crate per group, to build in parallel).
#![allow(unused_imports)]
use mon::{kinds::*, props, rng::Rng, toks::*};

pub fn run(prop: &str, i: u64, k: u64, r: Rng) {
    match k {
        2 => props::emp_case::<Td>(prop, i, k, r),
        10 => props::emp_case::<Sz<Z1>>(prop, i, k, r),
        18 => props::emp_case::<Sz<Y32>>(prop, i, k, r),
        _ => unreachable!(),
    }
}
