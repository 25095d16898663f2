#![allow(clippy::all, dead_code)]
#![feature(alloc_error_hook)]
#[path = "../../mc/src/alloc.rs"]
mod alloc;
#[path = "../../mc/src/explore.rs"]
mod explore;
#[path = "../../mc/src/ranges.rs"]
mod ranges;
#[path = "../../mc/src/cat.rs"]
mod cat;
#[path = "../../mc/src/specs.rs"]
mod specs;
#[path = "../../mc/src/p03.rs"]
mod p03;
#[path = "../../mc/src/p09.rs"]
mod p09;
#[path = "../../mc/src/p16.rs"]
mod p16;
#[path = "../../mc/src/p17.rs"]
mod p17;
#[path = "../../mc/src/p18.rs"]
mod p18;
mod p21;
#[path = "../../mc/src/inv.rs"]
mod inv;
mod p02 {
    pub use crate::inv::*;
}
mod reps;

use explore::*;
use std::time::Duration;

#[global_allocator]
static LEDGER: alloc::Ledger = alloc::Ledger;

/// The suites shared with the full configuration decide C21 here, under the property they come from.
fn suites() -> Vec<Suite> {
    let mut v = p21::SUITES.to_vec();
    for l in [p03::SUITES, p09::SUITES, p16::SUITES, p17::SUITES, p18::SUITES] {
        for s in l {
            let name = format!("{}_{}", s.prop.to_lowercase(), s.name);
            v.push(Suite { prop: "C21", name: Box::leak(name.into_boxed_str()), ..*s });
        }
    }
    v
}

fn main() {
    install_hook();
    // a refused allocation unwinds instead of aborting, so that it can be an explored outcome
    std::alloc::set_alloc_error_hook(|_| {
        alloc::fail_stop();
        panic!("allocation refused")
    });
    // first-use allocations of the runtime happen here, not inside a case
    let _ = attempt(|| panic!("warm up"));
    let _ = reps::pattern(3);
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for s in suites() {
                println!("{} {}", s.prop, s.name);
            }
        }
        // run <prop> <suite> <tier> <shard> <nshards> <cap_s> <out-prefix>
        Some("run") => {
            let s = *suites().iter().find(|s| s.prop == a[2] && s.name == a[3]).expect("suite");
            let thorough = a[4] == "thorough";
            let out = &a[8];
            let prog = Progress::open(&format!("{out}.prog"));
            let o = explore(&s, a[5].parse().unwrap(), a[6].parse().unwrap(), thorough, Duration::from_secs(a[7].parse().unwrap()), prog);
            let bytes: Vec<u8> = o.states.iter().flat_map(|x| x.to_le_bytes()).collect();
            std::fs::write(format!("{out}.states"), bytes).unwrap();
            let j = serde_json::json!({
                "suite": s.name, "execs": o.execs, "transitions": o.transitions, "states": o.states.len(),
                "exhaustive": o.exhaustive, "max_depth": o.max_depth, "engine_error": o.engine_error, "samples": o.samples,
                "violations": o.violations.iter().map(|(k, m, c, l)| serde_json::json!({"key": k, "msg": m, "choices": c, "trace": l})).collect::<Vec<_>>(),
            });
            std::fs::write(format!("{out}.json"), serde_json::to_vec(&j).unwrap()).unwrap();
        }
        // replay <prop> <suite> <tier> <choices,comma separated>
        Some("replay") => {
            let s = *suites().iter().find(|s| s.prop == a[2] && s.name == a[3]).expect("suite");
            let ch: Vec<u32> = a[5].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
            if replay(&s, &ch, a[4] == "thorough") {
                std::process::exit(1);
            }
        }
        Some("union") => {
            let mut h = std::collections::HashSet::new();
            for f in &a[2..] {
                for c in std::fs::read(f).unwrap_or_default().chunks(8) {
                    h.insert(u64::from_le_bytes(c.try_into().unwrap()));
                }
            }
            println!("{}", h.len());
        }
        _ => {
            eprintln!("usage: mc list | run .. | replay .. | union ..");
            std::process::exit(2);
        }
    }
}
