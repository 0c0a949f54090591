//! The worker for the properties of UnsizedVec.
#![allow(clippy::all)]
use mon::{kinds, props, rng::Rng, worker};

fn case(prop: &str, i: u64, mut r: Rng) -> String {
    let (share, all) = vc::scenarios(prop);
    if share > 0 && r.chance(share, 10) {
        let (name, f) = all[r.below(all.len())];
        f(prop, &mut r);
        return name.to_string();
    }
    let k = props::kind_of(prop, i, &mut r);
    let run = match k % 8 {
        0 => g0::run,
        1 => g1::run,
        2 => g2::run,
        3 => g3::run,
        4 => g4::run,
        5 => g5::run,
        6 => g6::run,
        _ => g7::run,
    };
    run(prop, i, k, r);
    kinds::KIND_NAMES[k as usize].to_string()
}

fn main() {
    worker::main(case);
}
