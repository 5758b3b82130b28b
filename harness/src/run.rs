//! MODULE SEED REPORT.json FILE...   (files ending in .sim.ndjson hold simulated behaviours)
use serde_json::json;

use crate::engine::{self, Module};

pub fn main(make: impl Fn(&str, u64) -> Box<dyn Module> + Sync) {
    let args: Vec<String> = std::env::args().collect();
    let (module, seed, report) = (args[1].clone(), args[2].parse::<u64>().expect("seed"), &args[3]);
    std::panic::set_hook(Box::new(|_| {}));
    let t0 = std::time::Instant::now();
    let mut rep = engine::Report::default();
    for f in &args[4..] {
        let file = match std::panic::catch_unwind(|| engine::load(f)) {
            Ok(f) => f,
            Err(e) => {
                eprintln!("cannot load {f}: {:?}", e.downcast_ref::<String>());
                std::process::exit(2);
            }
        };
        let make = || make(&module, seed);
        let mut r = engine::replay(&make, &file, f.ends_with(".sim.ndjson"));
        // keep the shortest example of every kind of divergence
        r.divergences.sort_by_key(|d| (d.key.clone(), file.path_to(d.node).len(), d.node));
        let mut seen = std::collections::HashMap::<String, usize>::new();
        r.divergences.retain(|d| {
            let n = seen.entry(d.key.clone()).or_default();
            *n += 1;
            *n <= 3
        });
        for d in &mut r.divergences {
            d.path = file.path_to(d.node);
        }
        rep.merge(r);
    }
    rep.samples.truncate(3);
    let j = json!({
        "module": module, "seed": seed, "roots": rep.roots, "edges": rep.edges, "accepted": rep.accepted,
        "refused": rep.refused, "states": rep.states, "skipped": rep.skipped, "traces": rep.traces,
        "max_depth": rep.max_depth, "kinds": rep.kinds, "samples": rep.samples,
        "wall_s": t0.elapsed().as_secs_f64(),
        "divergences": rep.divergences.iter().map(|d| json!({
            "key": d.key, "detail": d.detail, "file": d.file, "node": d.node, "path": d.path})).collect::<Vec<_>>(),
    });
    std::fs::write(report, serde_json::to_string_pretty(&j).expect("json")).expect("report");
}
