//! Conformance harness: drives geom3d through generated cases and records, for every
//! call, its arguments and outcome.  It judges nothing: the TLA+ specifications do.
//!
//! vh PROP TIER SEED WORKERS WORKER START TOTAL OUT SCENARIOS
//! writes one JSON history per line to OUT, preceded by a line "#B <case>".

mod gen;
mod rec;
mod props;

use std::io::Write;

pub struct Case {
    pub idx: u64,
    pub thorough: bool,
    pub rng: gen::Rng,
    /// a scenario produced by a TLA+ model, if this case replays one
    pub scn: Option<Vec<i64>>,
    pub evs: Vec<String>,
}

impl Case {
    pub fn ev(&mut self, e: rec::Ev) {
        self.evs.push(e.done());
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (prop, tier) = (a[1].clone(), a[2].clone());
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    let (seed, workers, worker, start, total) = (n(3), n(4), n(5), n(6), n(7));
    let out = a[8].clone();
    let scns: Vec<Vec<i64>> = match a.get(9) {
        Some(f) if !f.is_empty() => std::fs::read_to_string(f)
            .unwrap()
            .lines()
            .map(|l| l.split_whitespace().map(|w| w.parse().unwrap()).collect())
            .collect(),
        _ => Vec::new(),
    };
    std::panic::set_hook(Box::new(|_| {}));
    let run = props::lookup(&prop);
    let mut file = std::fs::OpenOptions::new().create(true).append(true).open(out).unwrap();
    let mut tag = 0xcbf29ce484222325u64;
    for b in prop.bytes() {
        tag = (tag ^ b as u64).wrapping_mul(0x100000001b3);
    }
    let mut i = start;
    while i < total {
        if i % workers == worker {
            writeln!(file, "#B {}", i).unwrap();
            let mut case = Case {
                idx: i,
                thorough: tier == "thorough",
                rng: gen::Rng::new(seed.wrapping_mul(0x9e3779b97f4a7c15) ^ tag ^ (i << 20)),
                scn: scns.get(i as usize).cloned(),
                evs: Vec::new(),
            };
            run(&mut case);
            if !case.evs.is_empty() {
                writeln!(file, "{{\"id\":\"{}-{}\",\"ev\":[{}]}}", prop, i, case.evs.join(",")).unwrap();
            }
        }
        i += 1;
    }
    writeln!(file, "#E").unwrap();
}
