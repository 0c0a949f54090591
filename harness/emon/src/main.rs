//! The worker for the properties of emplacable.
#![allow(clippy::all)]
use mon::{kinds, props, rng::Rng, worker};

/// Those that pass unsized values by value are not for the interpreter.
const SCENARIOS: [ec::Scenario; 11] = [
    ec::SCENARIOS[0],
    ec::SCENARIOS[1],
    ed::SCENARIOS[0],
    ed::SCENARIOS[1],
    ef::SCENARIOS[0],
    ef::SCENARIOS[1],
    if cfg!(miri) { ef::SCENARIOS[3] } else { ec::SCENARIOS[2] },
    ef::SCENARIOS[2],
    ef::SCENARIOS[3],
    if cfg!(miri) { eg::SCENARIOS[0] } else { ec::SCENARIOS[3] },
    eg::SCENARIOS[0],
];

fn case(prop: &str, i: u64, mut r: Rng) -> String {
    if let Some(s) = props::concrete(prop, &mut r, SCENARIOS.len()) {
        let (name, f): (&str, fn(&str, &mut Rng)) = SCENARIOS[s];
        f(prop, &mut r);
        return name.to_string();
    }
    let k = props::kind_of(prop, i, &mut r);
    let run = match k % 8 {
        0 => e0::run,
        1 => e1::run,
        2 => e2::run,
        3 => e3::run,
        4 => e4::run,
        5 => e5::run,
        6 => e6::run,
        _ => e7::run,
    };
    run(prop, i, k, r);
    kinds::KIND_NAMES[k as usize].to_string()
}

fn main() {
    worker::main(case);
}
