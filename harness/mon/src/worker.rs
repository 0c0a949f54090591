//! The worker process: runs a range of cases of one property.
use crate::{ctx, heap, props, reg, rng};
use std::io::{Seek, Write};

/// mon PROPERTY SEED FROM COUNT STATE-FILE OUT-FILE [--log]
///
/// `case` runs one case and returns its title.
pub fn main(case: fn(&str, u64, rng::Rng) -> String) {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 7 {
        eprintln!("usage: mon PROPERTY SEED FROM COUNT STATE OUT [--log]");
        std::process::exit(2);
    }
    let prop = args[1].clone();
    let seed: u64 = args[2].parse().unwrap();
    let from: u64 = args[3].parse().unwrap();
    let n: u64 = args[4].parse().unwrap();
    let log = args.iter().any(|a| a == "--log");
    let mut state = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(&args[5]).unwrap();
    ctx::install_hooks();
    ctx::ctx(|c| c.log_on = log);
    let mut distinct_cases = std::collections::HashSet::new();
    let mut done = 0u64;
    for i in from..from + n {
        state.seek(std::io::SeekFrom::Start(0)).unwrap();
        write!(state, "{i:<20}").unwrap();
        ctx::ctx(|c| {
            c.viol = None;
            c.case_prints = 0;
            c.sampling = i == from && !log;
            c.log.clear();
        });
        reg::reset();
        heap::abandon();
        heap::fail_off();
        let _ = heap::take_viol();
        let case_seed = rng::mix(rng::mix(seed) ^ rng::mix(i) ^ rng::mix(props::number(&prop)));
        if log {
            eprintln!("case {i} (seed {case_seed:#x})");
        }
        let title = case(&prop, i, rng::Rng::new(case_seed));
        reg::fuse_off();
        heap::fail_off();
        ctx::poll();
        let v = ctx::ctx(|c| c.viol.take());
        if let Some((tag, msg)) = v {
            // after an alarm the state of this process is no longer trusted
            let mine = props::accepts(&prop, tag);
            println!("{} {i} {tag:?} [{title}] {msg}", if mine { "VIOL" } else { "OTHER" });
            let _ = std::io::stdout().flush();
            std::process::exit(if mine { 1 } else { 3 });
        }
        done += 1;
        let h = ctx::ctx(|c| c.case_prints);
        if h != 0 {
            distinct_cases.insert(h);
        }
        if i == from {
            ctx::ctx(|c| {
                let l = c.log.join("; ");
                c.samples.push(format!("case {i} [{title}]: {l}"));
                c.sampling = false;
            });
        }
    }
    let mut out = String::new();
    ctx::ctx(|c| {
        out.push_str(&format!("done {done}\n"));
        for (k, v) in &c.counters {
            out.push_str(&format!("count {k} {v}\n"));
        }
        for s in &c.samples {
            out.push_str(&format!("sample {s}\n"));
        }
        for p in &distinct_cases {
            out.push_str(&format!("case {p:x}\n"));
        }
        for p in &c.prints {
            out.push_str(&format!("print {p:x}\n"));
        }
    });
    std::fs::write(&args[6], out).unwrap();
    println!("OK {done}");
}
