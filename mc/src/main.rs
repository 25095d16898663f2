#![allow(clippy::all)]
#![feature(alloc_error_hook, core_io_borrowed_buf)]
mod alloc;
mod explore;
mod inv;
mod reps;
mod ranges;
mod p01;
mod p15;
mod p20;
mod p14;
mod p13;
mod p12;
mod p11;
mod p18;
mod specs;
mod p16;
mod cat;
mod p17;
mod p10;
mod p09;
mod p08;
mod p05;
mod pool;
mod p07;
mod p19;
mod p04;
mod p03;
mod p02;

use explore::*;
use std::time::Duration;

#[global_allocator]
static LEDGER: alloc::Ledger = alloc::Ledger;

fn suites() -> Vec<Suite> {
    let mut v = Vec::new();
    v.extend_from_slice(p01::SUITES);
    v.extend_from_slice(p15::SUITES);
    v.extend_from_slice(p20::SUITES);
    v.extend_from_slice(p14::SUITES);
    v.extend_from_slice(p13::SUITES);
    v.extend_from_slice(p12::SUITES);
    v.extend_from_slice(p11::SUITES);
    v.extend_from_slice(p18::SUITES);
    v.extend_from_slice(p16::SUITES);
    v.extend_from_slice(p17::SUITES);
    v.extend_from_slice(p10::SUITES);
    v.extend_from_slice(p09::SUITES);
    v.extend_from_slice(p08::SUITES);
    v.extend_from_slice(p05::SUITES);
    v.extend_from_slice(p07::SUITES);
    v.extend_from_slice(p19::SUITES);
    v.extend_from_slice(p04::SUITES);
    v.extend_from_slice(p03::SUITES);
    v.extend_from_slice(p02::SUITES);
    v
}

fn main() {
    install_hook();
    // a refused allocation unwinds instead of aborting, so that it can be an explored outcome
    std::alloc::set_alloc_error_hook(|_| {
        alloc::fail_stop();
        panic!("allocation refused")
    });
    // first-use allocations of the runtime happen here, not inside a case
    let _ = attempt(|| panic!("warm up"));
    let _ = reps::pattern(3);
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for s in suites() {
                println!("{} {}", s.prop, s.name);
            }
        }
        // run <prop> <suite> <tier> <shard> <nshards> <cap_s> <out-prefix>
        Some("run") => {
            let s = *suites().iter().find(|s| s.prop == a[2] && s.name == a[3]).expect("suite");
            let thorough = a[4] == "thorough";
            let out = &a[8];
            let prog = Progress::open(&format!("{out}.prog"));
            let o = explore(&s, a[5].parse().unwrap(), a[6].parse().unwrap(), thorough, Duration::from_secs(a[7].parse().unwrap()), prog);
            let bytes: Vec<u8> = o.states.iter().flat_map(|x| x.to_le_bytes()).collect();
            std::fs::write(format!("{out}.states"), bytes).unwrap();
            let j = serde_json::json!({
                "suite": s.name, "execs": o.execs, "transitions": o.transitions, "states": o.states.len(),
                "exhaustive": o.exhaustive, "max_depth": o.max_depth, "engine_error": o.engine_error, "samples": o.samples,
                "violations": o.violations.iter().map(|(k, m, c, l)| serde_json::json!({"key": k, "msg": m, "choices": c, "trace": l})).collect::<Vec<_>>(),
            });
            std::fs::write(format!("{out}.json"), serde_json::to_vec(&j).unwrap()).unwrap();
        }
        // replay <prop> <suite> <tier> <choices,comma separated>
        Some("replay") => {
            let s = *suites().iter().find(|s| s.prop == a[2] && s.name == a[3]).expect("suite");
            let ch: Vec<u32> = a[5].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
            if replay(&s, &ch, a[4] == "thorough") {
                std::process::exit(1);
            }
        }
        Some("union") => {
            let mut h = std::collections::HashSet::new();
            for f in &a[2..] {
                for c in std::fs::read(f).unwrap_or_default().chunks(8) {
                    h.insert(u64::from_le_bytes(c.try_into().unwrap()));
                }
            }
            println!("{}", h.len());
        }
        _ => {
            eprintln!("usage: mc list | run .. | replay .. | union ..");
            std::process::exit(2);
        }
    }
}
