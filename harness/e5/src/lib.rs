//! Instantiates the generic workloads for some kinds of element (one crate per group, to build in parallel).
#![allow(unused_imports)]
use mon::{kinds::*, props, rng::Rng, toks::*};

pub fn run(prop: &str, i: u64, k: u64, r: Rng) {
    match k {
        5 => props::emp_case::<Ts<W2, B1>>(prop, i, k, r),
        13 => props::emp_case::<Sl<Hb>>(prop, i, k, r),
        21 => props::emp_case::<Sl<L64>>(prop, i, k, r),
        _ => unreachable!(),
    }
}
