//! Instantiates the generic workloads for some kinds of element (one crate per group, to build in parallel).
#![allow(unused_imports)]
use mon::{kinds::*, props, rng::Rng, toks::*};

pub fn run(prop: &str, i: u64, k: u64, r: Rng) {
    match k {
        1 => props::emp_case::<Sl<Q8>>(prop, i, k, r),
        9 => props::emp_case::<Cs>(prop, i, k, r),
        17 => props::emp_case::<Pl<u8>>(prop, i, k, r),
        _ => unreachable!(),
    }
}
