//! Scenarios for vecs of concrete types.
#![feature(allocator_api, unsized_fn_params, unsize, ptr_metadata)]
#![allow(internal_features, clippy::all, unexpected_cfgs)]

#[macro_use]
extern crate mon;

mod bulk;
mod conv;
mod extreme;
mod immense;
mod record;
mod traits;

use mon::rng::Rng;

pub type Scenario = (&'static str, fn(&str, &mut Rng));

/// The scenarios of a property, and how many cases in ten they get.
pub fn scenarios(prop: &str) -> (usize, &'static [Scenario]) {
    match prop {
        "V10" => (10, traits::ALL),
        "V11" => (5, conv::ALL),
        "V13" => (4, bulk::ALL),
        "V01" => (1, immense::ALL),
        "V04" => (1, extreme::ALL),
        "V05" => (1, extreme::ALL),
        "V07" => (3, extreme::ALL),
        _ => (0, &[]),
    }
}
