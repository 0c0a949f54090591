#![feature(
    allocator_api,
    unsized_fn_params,
    unsize,
    ptr_metadata,
    alloc_error_hook,
    coerce_unsized,
    btreemap_alloc
)]
#![allow(internal_features, clippy::all, static_mut_refs, unexpected_cfgs)]

//! The monitors, and the generic workloads they watch.

#[macro_use]
pub mod reg;
#[macro_use]
pub mod ctx;
#[macro_use]
pub mod kinds;
pub mod cost;
pub mod dest;
pub mod emp;
pub mod engine;
pub mod heap;
pub mod iters;
pub mod moves;
pub mod props;
pub mod rng;
pub mod toks;
pub mod worker;

#[global_allocator]
static M: heap::Mon = heap::Mon;
